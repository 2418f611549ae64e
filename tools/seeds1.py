MX, VE, QU = "vmmlib/matrix.hpp", "vmmlib/vector.hpp", "vmmlib/quaternion.hpp"

seed("store-column-stride", "P01", MX,
     ("    memcpy( column.array, array + M * index, M * sizeof( T ) );", "    memcpy( column.array, array + N * index, M * sizeof( T ) );"),
     "a non-square matrix and the Matrix< M, 1 > overload of get_column() with an index above 0",
     "the column read through this overload is not the one stored",
     """    Matrix< 2, 3, float > m; for( int i = 0; i < 6; ++i ) m.array[ i ] = i;
    Matrix< 2, 1, float > c; m.get_column( 1, c );
    CHECK( c.array[ 0 ] == 2 && c.array[ 1 ] == 3 );""")

seed("store-equals-cmp", "P01", MX,
     ("        for( size_t col = 0; is_ok && col < N; ++col)\n        {\n            is_ok = cmp(", "        for( size_t col = 0; is_ok && col < M && col < N; ++col)\n        {\n            is_ok = cmp("),
     "comparison with a comparator of matrices with more columns than rows that differ only in the last columns",
     "different matrices compare as equal",
     """    struct Cmp { bool operator()( float a, float b ) { return a == b; } } cmp;
    Matrix< 2, 3, float > a, b; a.zero(); b.zero(); b( 1, 2 ) = 7;
    CHECK( !a.equals( b, cmp )); CHECK( a.equals( a, cmp ));""")

seed("bounds-get-column", "P02", MX,
     ("void Matrix< M, N, T >::get_column( size_t index, Vector< M, T >& column ) const\n{\n#ifdef VMMLIB_SAFE_ACCESSORS\n    if ( index >= N )",
      "void Matrix< M, N, T >::get_column( size_t index, Vector< M, T >& column ) const\n{\n#ifdef VMMLIB_SAFE_ACCESSORS\n    if ( index > N )"),
     "get_column() of exactly the column one past the end",
     "reads memory after the matrix instead of throwing",
     """    Matrix< 3, 3, float > m; bool thrown = false;
    try { m.get_column( 3 ); } catch( const vmml::exception& ) { thrown = true; }
    CHECK( thrown );
    m.get_column( 2 );""")

seed("bounds-sub-matrix", "P02", MX,
     ("    if ( O + row_offset > M || P + col_offset > N )", "    if ( O + row_offset > M && P + col_offset > N )"),
     "nothing but a failing at() protects if one of the offsets is right: with NDEBUG-like exceptions the result is changed before the exception",
     "a rejected get_sub_matrix() has already overwritten part of the result",
     """    Matrix< 4, 4, float > m; Matrix< 2, 2, float > s; s( 0, 0 ) = 42; s( 1, 0 ) = 43; m = 1.f;
    bool thrown = false;
    try { m.get_sub_matrix( s, 0, 3 ); } catch( const vmml::exception& ) { thrown = true; }
    CHECK( thrown ); CHECK( s( 0, 0 ) == 42 );""")

seed("bounds-vector-const-at", "P02", VE,
     ("inline const T&\nVector< M, T >::at( size_t index ) const\n{\n    #ifdef VMMLIB_SAFE_ACCESSORS\n    if ( index >= M )",
      "inline const T&\nVector< M, T >::at( size_t index ) const\n{\n    #ifdef VMMLIB_SAFE_ACCESSORS\n    if ( index >= std::max( M, size_t( 4 )))"),
     "reading a constant vector of less than four components one or two past the end",
     "no exception; memory after the vector is read",
     """    struct { Vector< 2, float > v; float z[ 4 ]; } s; const Vector< 2, float >& c = s.v; bool thrown = false;
    try { volatile float f = c.at( 2 ); (void)f; } catch( const vmml::exception& ) { thrown = true; }
    CHECK( thrown );""")

seed("arith-divide-alias", "P03", MX,
     [("    void operator/=( T scalar );", "    void operator/=( const T& scalar );"),
      ("void\nMatrix< M, N, T >::operator/=( T scalar )", "void\nMatrix< M, N, T >::operator/=( const T& scalar )")],
     "dividing a matrix in place by one of its own elements",
     "all elements visited after the divisor are divided by one",
     """    Matrix< 2, 2, float > m; m( 0, 0 ) = 2; m( 0, 1 ) = 4; m( 1, 0 ) = 6; m( 1, 1 ) = 8;
    m /= m( 0, 0 );
    NEAR( m( 0, 0 ), 1 ); NEAR( m( 0, 1 ), 2 ); NEAR( m( 1, 0 ), 3 ); NEAR( m( 1, 1 ), 4 );""")

seed("arith-product-skip", "P03", MX,
     ("            component = static_cast< T >( 0.0 );\n            for( size_t p = 0; p < P; p++)",
      "            component = left.at( row_index, 0 ) * right.at( 0, col_index );\n            for( size_t p = 1; p < std::max( M, P ); p++)"),
     "a product whose inner dimension is smaller than the number of rows of the result",
     "elements outside the operands are added, or rather an exception is raised for valid operands",
     """    Matrix< 3, 2, float > a; Matrix< 2, 2, float > b; a = 1.f; b = 1.f; bool thrown = false;
    try { Matrix< 3, 2, float > c = a * b; NEAR( c( 2, 1 ), 2 ); } catch( const vmml::exception& ) { thrown = true; }
    CHECK( !thrown );""")

seed("det-term", "P04", MX,
     ("            - m02 * m10 * m23 * m31", "            - m02 * m01 * m23 * m31"),
     "a 4x4 matrix, not symmetric in the elements 01 and 10, with non-zero elements 02, 23 and 31",
     "the determinant is wrong",
     """    Matrix< 4, 4, double > m; m.zero();
    m( 0, 2 ) = 2; m( 1, 0 ) = 3; m( 2, 3 ) = 5; m( 3, 1 ) = 7;
    NEAR( m.det(), -210 );""")

seed("minor-last-row", "P04", MX,
     ("            col_offset = 0;\n        }\n    }\n    return compute_determinant( minor_ );",
      "            if( row_index < 3 )\n                col_offset = 0;\n        }\n    }\n    return compute_determinant( minor_ );"),
     "minors of a 5x5 matrix (cofactors, adjugate)",
     "the last row of the minor is shifted",
     """    Matrix< 5, 5, double > m; for( int i = 0; i < 25; ++i ) m.array[ i ] = ( i * 7 ) % 11;
    Matrix< 4, 4, double > c; m.get_minor( c, 0, 0 );
    for( int i = 0; i < 4; ++i ) for( int j = 0; j < 4; ++j ) CHECK( c( i, j ) == m( i + 1, j + 1 ));""")

seed("inverse4-negative", "P05", MX,
     ("   if( fabs( determinant ) <= tolerance_ )\n        return false; // matrix is not invertible\n\n   /* division", "   if( determinant <= tolerance_ && determinant > -1 )\n        return false; // matrix is not invertible\n\n   /* division"),
     "a 4x4 matrix with a determinant between -1 and 0",
     "an invertible matrix is refused",
     """    Matrix< 4, 4, double > m, i; m( 0, 0 ) = -0.5;
    CHECK( m.inverse( i )); NEAR( i( 0, 0 ), -2 );""")

seed("inverse3-stale", "P05", MX,
     ("        + m_.at( 0, 2 ) * inverse_.at( 2, 0 );", "        + m_.at( 0, 2 ) * ( m_.at( 1, 0 ) * m_.at( 2, 1 ) - m_.at( 1, 1 ) * m_.at( 0, 2 ));"),
     "a 3x3 matrix whose elements 02 and 20 differ while 02 and 11 do not vanish",
     "the inverse is scaled by the wrong determinant",
     """    Matrix< 3, 3, double > m, i; m( 0, 2 ) = 2;
    CHECK( m.inverse( i )); NEAR(( m * i )( 0, 0 ), 1 ); NEAR(( m * i )( 2, 2 ), 1 );
    m.zero(); m( 0, 2 ) = 2; m( 1, 1 ) = 3; m( 2, 0 ) = 5; m( 0, 0 ) = 1;
    CHECK( m.inverse( i )); NEAR(( m * i )( 0, 0 ), 1 ); NEAR(( m * i )( 2, 2 ), 1 );""")

seed("matvec-project", "P06", MX,
     ("            tmp += at( row_index, N - 1  );\n", "            if( tmp == T( 0 ))\n                return result;\n            tmp += at( row_index, N - 1  );\n"),
     "an affine-looking last row (zero but for the last element) with a last element other than one",
     "the point is not divided by its homogeneous coordinate",
     """    Matrix< 4, 4, float > m; m( 3, 3 ) = 2; Vector< 3, float > v( 2, 4, 6 ); v = m * v;
    NEAR( v.x(), 1 ); NEAR( v.y(), 2 ); NEAR( v.z(), 3 );""")

seed("matvec-sum-type", "P06", MX,
     ("        T tmp( 0 );\n        for( size_t j = 0; j < N; ++j )\n            tmp += at( i, j ) * vec.at( j );\n        result.at( i ) = tmp;",
      "        float tmp( 0 );\n        for( size_t j = 0; j < N; ++j )\n            tmp += at( i, j ) * vec.at( j );\n        result.at( i ) = tmp;"),
     "double or int elements whose products need more than 24 bits",
     "the product is rounded to single precision",
     """    Matrix< 2, 2, double > m; m = 0.; m( 0, 0 ) = 16777217; Vector< 2, double > v( 1, 0 );
    CHECK(( m * v )( 0 ) == 16777217 );
    Matrix< 2, 2, int > k; k = 0; k( 1, 1 ) = 16777217; Vector< 2, int > w( 0, 1 );
    CHECK(( k * w )( 1 ) == 16777217 );""")

seed("affine-translation-read", "P07", MX,
     ("        translation_.array[ i ] = array[ i + M * (N - 1) ];", "        translation_.array[ i ] = static_cast< T >( static_cast< int >( array[ i + M * (N - 1) ]));"),
     "a translation that is not integral", "the fraction of the translation is lost when read",
     """    Matrix< 4, 4, float > m; m.set_translation( 0.5f, 1.25f, -2.f ); Vector< 3, float > t = m.get_translation();
    NEAR( t.x(), 0.5 ); NEAR( t.y(), 1.25 ); NEAR( t.z(), -2 );""")

seed("affine-prerotate-row", "P07", MX,
     ("    tmp         = array[ 12 ];\n    array[ 12 ] = array[ 12 ] * cosine - array[ 14 ] * sine;\n    array[ 14 ] = tmp * sine + array[ 14 ] * cosine;",
      "    array[ 12 ] = array[ 12 ] * cosine - array[ 14 ] * sine;\n    array[ 14 ] = tmp * sine + array[ 14 ] * cosine;"),
     "pre_rotate_y() of a matrix with a translation", "the translation is rotated with an element of another column",
     """    Matrix< 4, 4, double > m; m.set_translation( 3., 0., 5. ); m( 0, 2 ) = 9; m.pre_rotate_y( M_PI / 2 );
    NEAR( m( 0, 3 ), -5 ); NEAR( m( 2, 3 ), 3 );""")

seed("affine-rotate-x-untouched", "P07", MX,
     ("    tmp         = array[ 7 ] * cosine + array[ 11 ] * sine;\n    array[ 11 ] = - array[ 7 ] * sine + array[ 11 ] * cosine;\n    array[ 7 ]  = tmp;\n\n    return *this;\n}\n\ntemplate< size_t M, size_t N, typename T >\ntemplate< typename TT >\nMatrix< M, N, T >& Matrix< M, N, T >::rotate_y(",
      "    return *this;\n}\n\ntemplate< size_t M, size_t N, typename T >\ntemplate< typename TT >\nMatrix< M, N, T >& Matrix< M, N, T >::rotate_y("),
     "rotate_x() of a matrix with a projective last row", "the last row is not rotated",
     """    Matrix< 4, 4, double > m; m( 3, 1 ) = 2; m( 3, 2 ) = 3; m.rotate_x( M_PI / 2 );
    NEAR( m( 3, 1 ), 3 ); NEAR( m( 3, 2 ), -2 );""")

seed("product-kronecker", "P08", MX,
     ("result_.at(O*m + o, P*n + p) = at( m, n ) * right_.at( o, p );", "result_.at(O*m + o, O*n + p) = at( m, n ) * right_.at( o, p );"),
     "a right operand of the Kronecker product that is not square", "blocks of the product are misplaced",
     """    Matrix< 2, 2, float > a; Matrix< 2, 1, float > b; a = 1.f; a( 0, 1 ) = 2; b( 0, 0 ) = 3; b( 1, 0 ) = 5; Matrix< 4, 2, float > r; r.zero();
    try { a.kronecker_product( b, r ); } catch( ... ) { bad = 1; }
    NEAR( r( 0, 1 ), 6 ); NEAR( r( 1, 1 ), 10 ); NEAR( r( 0, 0 ), 3 );""")

seed("product-sum-odd", "P08", MX,
     ("    other.zero();\n\n    for ( size_t col = 0; col< N; ++col )\n    {\n        get_column( col++, *col0 );", "    for ( size_t col = 0; col< N; ++col )\n    {\n        if( col + 1 == N && N > 2 )\n            other.set_column( N/2 - 1, get_column( col ));\n        get_column( col++, *col0 );"),
     "sum_columns() of a matrix with an odd number of at least three columns",
     "the last column replaces the last sum",
     """    Matrix< 2, 3, float > m; m = 1.f; m( 0, 2 ) = 9; Matrix< 2, 1, float > s; m.sum_columns( s );
    NEAR( s( 0, 0 ), 2 ); NEAR( s( 1, 0 ), 2 );""")

seed("reduce-max-first", "P09", MX,
     ("    const_iterator  it = begin(),\n    it_end = end();\n    for( ; it != it_end; ++it)\n    {\n        if ( *it > max_value ) {",
      "    const_iterator  it = begin(),\n    it_end = end() - ( M > 1 && N > 4 );\n    for( ; it != it_end; ++it)\n    {\n        if ( *it > max_value ) {"),
     "the largest element in the last position of a matrix with more than four columns",
     "the maximum is missed",
     """    Matrix< 2, 5, float > m; m = 1.f; m( 1, 4 ) = 3; CHECK( m.get_max() == 3 );""")

seed("reduce-absmin-sign", "P09", MX,
     ("        if ( fabs(*it) <= threshold_value_ ) {", "        if ( *it <= threshold_value_ && *it > -threshold_value_ ) {"),
     "thresholding an element equal to minus the threshold",
     "the element is kept",
     """    Matrix< 2, 2, float > m; m = 5.f; m( 0, 1 ) = -2; m( 1, 1 ) = 2; m.threshold( 2 );
    CHECK( m( 0, 1 ) == 0 ); CHECK( m( 1, 1 ) == 0 ); CHECK( m( 0, 0 ) == 5 );""")

seed("convert-stale", "P10", MX,
     ("    if( minL < M || minC < N )\n        zero();", "    if( minL < M && minC < N )\n        zero();"),
     "assigning a matrix that is smaller in only one dimension to one with other content",
     "the elements outside the common block keep their old values",
     """    Matrix< 3, 3, float > a; a = 7.f; Matrix< 2, 3, float > b; b = 1.f; a = b;
    NEAR( a( 2, 0 ), 0 ); NEAR( a( 2, 2 ), 0 ); NEAR( a( 0, 0 ), 1 );""")

seed("quantize-own-range", "P11", MX,
     ("    min_value = get_min();\n    max_value = get_max();\n    quantize_to(", "    min_value = get_min();\n    max_value = std::max( get_max(), T( 0 ));\n    quantize_to("),
     "quantizing a matrix with only negative elements to its own range",
     "the range returned and used is not that of the matrix",
     """    Matrix< 2, 2, float > m; m = -1.f; m( 0, 0 ) = -5; float a, b; Matrix< 2, 2, unsigned char > q; m.quantize( q, a, b );
    NEAR( b, -1 ); CHECK( q( 1, 1 ) == 255 ); CHECK( q( 0, 0 ) == 0 );""")

seed("raw-suffix", "P12", MX,
     ("    if( filename_.find( \"raw\", filename_.size() -3) == std::string::npos )\n    {\n        path.append( \".\");\n        path.append( \"raw\" );\n    }\n    std::string path_raw = path;",
      "    if( filename_.find( \".raw\" ) == std::string::npos )\n    {\n        path.append( \".\");\n        path.append( \"raw\" );\n    }\n    std::string path_raw = path;"),
     "a file name ending with raw but without a dot", "what was written cannot be read back by the same name",
     """    Matrix< 2, 2, float > a, b; a = 5.f; a.write_to_raw( ".", "draw" ); b.read_from_raw( ".", "draw" ); CHECK( a == b );""")

seed("stream-vector-format", "P12", VE,
     ("        for( ; index < M; ++index )\n            os << std::setw(10) << vector_.at( index ) << \" \";", None) if False else
     ("            is >> at( row_index, col_index );", "            is >> at( row_index, col_index );\n            if( is.peek() == ' ' ) is.ignore( 2 );", 1) if False else
     ("void\nVector< M, T >::read_from_stream( std::istream& is )\n{\n    for( size_t i = 0; i < M; ++i )\n    {\n        is >> at( i );\n    }\n}",
      "void\nVector< M, T >::read_from_stream( std::istream& is )\n{\n    for( size_t i = 0; i < M; ++i )\n    {\n        is >> at( i );\n    }\n    std::string rest;\n    std::getline( is, rest );\n}"),
     "something else written to the stream after a vector", "reading a vector swallows what follows it",
     """    Vector< 2, float > v( 1, 2 ), w( 3, 4 ), a, b; std::stringstream s; v.write_to_stream( s ); w.write_to_stream( s );
    a.read_from_stream( s ); b.read_from_stream( s ); CHECK( b.x() == 3 && b.y() == 4 );""")

seed("vector-selfdiv", "P13", VE,
     [("    void operator*=( T other );" , "    void operator*=( const T& other );")] if False else
     ("void\nVector< M, T >::operator-=( const Vector< M, T >& other )\n{\n    for( size_t index = 0; index < M; ++index )\n        at( index ) -= other.at( index );\n}",
      "void\nVector< M, T >::operator-=( const Vector< M, T >& other )\n{\n    const T* o = other.array;\n    for( size_t index = 0; index < std::min( M, size_t( 4 )); ++index )\n        array[ index ] -= *o++;\n}"),
     "subtracting vectors of more than four components in place", "components after the fourth are not subtracted",
     """    Vector< 5, float > a( 3.f ), b( 1.f ); a -= b; CHECK( a.at( 3 ) == 2 ); CHECK( a.at( 4 ) == 2 );""")

seed("vector-dot-int", "P13", VE,
     ("    T _squared_length = 0.0;\n    for( const_iterator", "    float _squared_length = 0.0;\n    for( const_iterator"),
     "squared lengths above 2^24 of double or int vectors", "the sum is rounded to single precision",
     """    Vector< 2, double > v( 4097, 0 ); CHECK( v.squared_length() == 4097. * 4097. );
    Vector< 3, int > w( 5001, 2, 0 ); CHECK( w.squared_length() == 5001 * 5001 + 4 );""")

seed("vector-normalize-tiny", "P14", VE,
     ("    if ( len == 0 )\n        return 0;\n\n    const T tmp = 1.0 / len;", "    if ( len < std::numeric_limits< float >::epsilon( ))\n        return 0;\n\n    const T tmp = 1.0 / len;"),
     "normalizing a very short vector", "it is left as it is",
     """    Vector< 3, double > v( 3e-9, 0, 4e-9 ); v.normalize(); NEAR( v.x(), 0.6 ); NEAR( v.z(), 0.8 );""")

seed("vector-rotate-axis", "P14", VE,
     ("        (( 1 - costheta ) * axis.y() * axis.z() - axis.x() * sintheta ) * z(),", "        (( 1 - costheta ) * axis.y() * axis.z() - axis.z() * sintheta ) * z(),"),
     "rotating a vector with a z component about an axis whose x and z components differ", "the y component is wrong",
     """    Vector< 3, double > v( 0, 0, 1 ), r = v.rotate( M_PI / 2, Vector< 3, double >( 1, 0, 0 )); NEAR( r.y(), -1 ); NEAR( r.z(), 0 );""")

seed("vector-less-prefix", "P15", VE,
     ("        if (other.at( index ) < at( index )) return false;", "        if (other.at( index ) < at( index ) && index == 0) return false;"),
     "comparing vectors with equal first and decreasing second but increasing third component",
     "the order is neither lexicographic nor asymmetric",
     """    Vector< 3, float > a( 1, 3, 1 ), b( 1, 2, 5 ); CHECK( !( a < b )); CHECK( b < a );""")

seed("vector-clamp", "P15", VE,
     ("        if( array[i] < min )\n            array[i] = min;\n        if( array[i] > max )\n            array[i] = max;", "        if( array[i] < min )\n            array[i] = min;\n        else if( i < 4 && array[i] > max )\n            array[i] = max;"),
     "clamping the fifth or a later component from above", "it is not clamped",
     """    Vector< 5, float > v( 9.f ); v.clamp( 0, 1 ); CHECK( v.at( 0 ) == 1 ); CHECK( v.at( 4 ) == 1 );""")

seed("vector-homogeneous", "P16", VE,
     ("    const T w_reci = static_cast< T >( 1.0 ) / source_( M );", "    const T w_reci = source_( M ) > 0 ? static_cast< T >( 1.0 ) / source_( M ) : static_cast< T >( 1.0 );"),
     "conversion from homogeneous coordinates with a negative last component", "the division is left out",
     """    Vector< 4, float > h( 2, 4, 6, -2 ); Vector< 3, float > p( h ); NEAR( p.x(), -1 ); NEAR( p.z(), -3 );""")

seed("vector-set-sub", "P16", VE,
     ("    memcpy( array, v.array, sizeof( T ) * minimum );", "    memcpy( array, v.array, sizeof( T ) * minimum );\n    for( size_t i = minimum; i < M; ++i )\n        array[ i ] = v.array[ minimum - 1 ];"),
     "set() from a shorter vector", "components beyond it are overwritten",
     """    Vector< 4, float > a( 1, 2, 3, 4 ); Vector< 2, float > b( 7, 8 ); a.set( b ); CHECK( a.x() == 7 && a.y() == 8 && a.z() == 3 && a.w() == 4 );""")

seed("plane-sphere-inside", "P17", VE,
     ("    return ( point - center_ ).length() - w();", "    return std::fabs(( point - center_ ).length() - w( ));"),
     "the distance to a sphere of a point inside", "the sign is lost",
     """    Vector< 4, float > s( 0, 0, 0, 5 ); NEAR( s.distance_to_sphere( Vector< 3, float >( 3, 0, 0 )), -2 ); NEAR( s.distance_to_sphere( Vector< 3, float >( 7, 0, 0 )), 2 );""")

seed("plane-offset", "P17", VE,
     ("    plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();", "    plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * c.z();"),
     "a plane that is not perpendicular to an axis, through points of different z", "the plane does not contain the points",
     """    Vector< 3, double > a( 0, 0, 1 ), b( 1, 0, 0 ), c( 0, 1, 0 ); Vector< 4, double > p = compute_plane( a, b, c );
    NEAR( p.distance_to_plane( a ), 0 ); NEAR( p.distance_to_plane( b ), 0 ); NEAR( p.distance_to_plane( c ), 0 );""")

seed("quat-product-alias", "P18", QU,
     ("    const T tmp_09 = 0.5 * (tmp_04 + tmp_08);\n\n    _array[ 3 ] = tmp_00 + tmp_09 - tmp_05;\n    _array[ 0 ] = tmp_01 + tmp_09 - tmp_08;\n    _array[ 1 ] = tmp_02 + tmp_09 - tmp_07;\n    _array[ 2 ] = tmp_03 + tmp_09 - tmp_06;",
      "    const T tmp_09 = 0.5 * (tmp_04 + tmp_08);\n\n    _array[ 0 ] = tmp_01 + tmp_09 - tmp_08;\n    _array[ 1 ] = tmp_02 + tmp_09 - tmp_07;\n    _array[ 2 ] = tmp_03 + tmp_09 - tmp_06;\n    _array[ 3 ] = (d - c) * (_z - _w) + tmp_09 - tmp_05;"),
     "the quaternion product in place (every product uses it) when y and z of the result differ from the left operand's",
     "the real part is computed from the new imaginary part",
     """    Quaternion< double > a( 1, 2, 3, 4 ), b( 5, 6, 7, 8 ), c = a * b; NEAR( c.w(), 4*8 - 1*5 - 2*6 - 3*7 ); NEAR( c.x(), 4*5 + 1*8 + 2*7 - 3*6 );""")

seed("quat-scalar-equal", "P18", QU,
     ("    return ( w() == a && x() == 0 && y() == 0 && z() == 0 );", "    return ( w() == a && x() + y() + z() == 0 );"),
     "comparing with a scalar a quaternion whose imaginary components cancel", "it compares as equal",
     """    Quaternion< float > a( 1, -1, 0, 3 ), b( 0, 0, 0, 3 ); CHECK( !( a == 3.f )); CHECK( b == 3.f );""")

seed("quat-matrix-largest", "P19", QU,
     ("            x() = M( 0,1 ) + M( 1,0 );\n            x() *= s;\n            y() = 0.25 / s;\n            z() = M( 1,2 ) + M( 2,1 );", "            x() = M( 0,1 ) + M( 1,0 );\n            x() *= s;\n            y() = 0.25 / s;\n            z() = M( 1,2 ) - M( 2,1 );"),
     "the quaternion of a half turn whose axis has its largest component along y and another one along z",
     "the axis is wrong",
     """    Matrix< 3, 3, double > m; m.zero(); m( 0, 0 ) = -1; // half turn about ( 0, 4, 3 ) / 5
    m( 1, 1 ) = 7. / 25; m( 2, 2 ) = -7. / 25; m( 1, 2 ) = m( 2, 1 ) = 24. / 25;
    Quaternion< double > q( m ); NEAR( q.y(), 0.8 ); NEAR( q.z(), 0.6 );""")

seed("quat-matrix-unscaled", "P19", QU,
     ("    M( 2, 2 ) = w2 - x2 - y2 + z2;", "    M( 2, 2 ) = w2 - x2 - y2 + ( 1 - w2 - x2 - y2 ) + wx * T( 0.0 );") if False else
     ("    T trace = M( 0, 0 ) + M( 1, 1 ) + M( 2,2 ) + 1.0;", "    T trace = M( 0, 0 ) + M( 1, 1 ) + M( D - 1, D - 1 ) + 1.0;"),
     "building a quaternion from the rotation part of a 4x4 matrix whose elements 22 and 33 differ",
     "the quaternion is scaled wrongly",
     """    Matrix< 4, 4, double > m; m( 1, 1 ) = m( 2, 2 ) = 0; m( 1, 2 ) = -1; m( 2, 1 ) = 1; // quarter turn about x
    Quaternion< double > q( m ); NEAR( q.x(), std::sqrt( .5 )); NEAR( q.w(), std::sqrt( .5 ));""")

seed("slerp-long-way", "P20", QU,
     ("    if ( cosine < 0.0 )\n    {\n        cosine = -cosine;\n        qx = -qx;\n    }", "    if ( cosine < 0.0 && px.w() * qx.w() <= 0.0 )\n    {\n        cosine = -cosine;\n        qx = -qx;\n    }"),
     "orientations more than 180 degrees apart as quaternions whose real parts have the same sign",
     "interpolation takes the longer arc",
     """    Quaternion< double > p( .8, 0, 0, .6 ), q( -.8, 0, 0, .6 ); Quaternion< double > r = Quaternion< double >::slerp( .5, p, q );
    NEAR( std::fabs( r.x()), 1 ); NEAR( r.w(), 0 );""")

seed("slerp-linear", "P20", QU,
     ("        px *= 1. - a;\n        qx *= a;\n        px += qx;\n        px.normalize();", "        px *= 1. - a;\n        qx *= a;\n        px += qx;"),
     "nearly equal orientations, interpolated linearly, with an epsilon large enough to matter",
     "the result is not a unit quaternion",
     """    Quaternion< double > p( 0, 0, 0, 1 ), q( .6, 0, 0, .8 ); Quaternion< double > r = Quaternion< double >::slerp( .5, p, q, .5 );
    NEAR( r.abs(), 1 );""")

seed("aabb-merge-else", "P21", "vmmlib/aabb.hpp",
     ("    if ( point.x() > _max.x() )\n        _max.x() = point.x();", "    else if ( point.x() > _max.x() )\n        _max.x() = point.x();") if False else
     ("    if ( point.z() < _min.z() )\n        _min.z() = point.z();\n\n    if ( point.x() > _max.x() )\n        _max.x() = point.x();\n\n    if ( point.y() > _max.y() )\n        _max.y() = point.y();\n\n    if ( point.z() > _max.z() )\n        _max.z() = point.z();",
      "    if ( point.z() < _min.z() )\n        _min.z() = point.z();\n    else if ( point.z() > _max.z() )\n        _max.z() = point.z();\n\n    if ( point.x() > _max.x() )\n        _max.x() = point.x();\n\n    if ( point.y() > _max.y() )\n        _max.y() = point.y();"),
     "an empty box to which points of decreasing z are merged (or only one)", "the box has no extent in z",
     """    AABB< float > b; b.merge( Vector< 3, float >( 1, 2, 3 )); b.merge( Vector< 3, float >( 2, 3, 1 ));
    CHECK( b.getMax().z() == 3 ); CHECK( b.getMin().z() == 1 );""")

seed("aabb-2d-strict", "P21", "vmmlib/aabb.hpp",
     ("    if ( pos.x() > _max.x() || pos.y() > _max.y() || pos.x() < _min.x() ||\n         pos.y() < _min.y( ))", "    if ( pos.x() > _max.x() || pos.y() > _max.y() || pos.x() < _min.x() ||\n         pos.y() <= _min.y( ))"),
     "a point exactly on the lower y side", "it is not inside",
     """    AABB< float > b( Vector< 3, float >( 0.f ), Vector< 3, float >( 1.f )); CHECK( b.isIn2d( Vector< 3, float >( .5f, 0, .5f )));""")

seed("frustum-adjust", "P22", "vmmlib/frustum.hpp",
     ("	const T ratio = new_near / near_plane();", "	const T ratio = new_near / near_plane();\n	if( new_near >= far_plane( )) return;"),
     "moving the near plane to or beyond the far plane", "nothing happens",
     """    Frustum< float > f( -1, 1, -1, 1, 1, 10 ); f.adjust_near( 20 ); NEAR( f.near_plane(), 20 ); NEAR( f.right(), 20 );""")

seed("frustum-ortho", "P22", "vmmlib/frustum.hpp",
     ("    M( 1,3 ) = -( top() + bottom() ) / ( top() - bottom() );", "    M( 1,3 ) = -( top() + bottom() ) / ( right() - left() );"),
     "an orthographic projection that is neither symmetric in y nor square", "corners are not mapped to the corners of the cube",
     """    Frustum< float > f( 0, 4, 1, 3, 1, 5 ); Matrix< 4, 4, float > m = f.compute_ortho_matrix();
    Vector< 4, float > p = m * Vector< 4, float >( 0, 1, -1, 1 ); NEAR( p.y(), -1 );""")

seed("cull-far-partial", "P23", "vmmlib/frustum_culler.hpp",
     ("    switch( _test_aabb( _far_plane, middle, extent ))\n    {\n        case VISIBILITY_FULL: break;\n        case VISIBILITY_PARTIAL: result = VISIBILITY_PARTIAL; break;", "    switch( _test_aabb( _far_plane, middle, extent ))\n    {\n        case VISIBILITY_FULL: break;\n        case VISIBILITY_PARTIAL: break;"),
     "a box that crosses only the far plane", "it is reported as fully visible",
     """    FrustumCuller< float > c; c.setup( Matrix< 4, 4, float >( )); typedef Vector< 2, float > V;
    CHECK( c.test_aabb( V( -.5f, .5f ), V( -.5f, .5f ), V( .5f, 2 )) == VISIBILITY_PARTIAL );""")

seed("cull-reversed", "P23", "vmmlib/frustum_culler.hpp",
     ("    const vec3& extent = vec3( fabs(x[1] - x[0]), fabs(y[1] - y[0]),\n                               fabs(z[1] - z[0]) ) * .5;", "    const vec3& extent = vec3( x[1] - x[0], y[1] - y[0],\n                               z[1] - z[0] ) * .5;"),
     "a box given with its bounds in reverse order", "a visible box is rejected or a crossing one reported as inside",
     """    FrustumCuller< float > c; c.setup( Matrix< 4, 4, float >( )); typedef Vector< 2, float > V;
    CHECK( c.test_aabb( V( -.5f, .5f ), V( -.5f, .5f ), V( 2, .5f )) == VISIBILITY_PARTIAL );""")

seed("ray-inside-behind", "P24", "vmmlib/intersection.hpp",
     ("    if( vecProjection < 0 && sqDistance > sqRadius )\n        return false;", "    if( vecProjection < 0 )\n        return false;"),
     "a ray starting inside the sphere and pointing away from its centre", "the hit is missed",
     """    Intersection< float > r( Vector< 3, float >( 1, 0, 0 ), Vector< 3, float >( 1, 0, 0 )); float t = -1;
    CHECK( r.test_sphere( Vector< 4, float >( 0, 0, 0, 3 ), t )); NEAR( t, 2 );""")

seed("lowpass-window", "P25", "vmmlib/lowpass_filter.hpp",
     ("    while( _data.size() > M )\n        _data.pop_back();", "    if( _data.size() > M + 1 )\n        _data.pop_back();"),
     "more values than the window holds", "the oldest value still has influence",
     """    LowpassFilter< 2, double > f( .5f ); f.add( 100 ); f.add( 0 ); NEAR( f.add( 0 ), 0 );""")

seed("lowpass-change-factor", "P25", "vmmlib/lowpass_filter.hpp",
     ("    _smooth_factor = f;\n}", "    if( f > _smooth_factor )\n        _data.clear();\n    _smooth_factor = f;\n}"),
     "increasing the smoothing factor after values were added", "the history is dropped",
     """    LowpassFilter< 3, double > f( .25f ); f.add( 8 ); f.set_smooth_factor( .5f ); NEAR( f.add( 0 ), 4 );""")

seed("qr-residual", "P26", "vmmlib/qr_decomposition.hpp",
     ("            R( i, j ) = dot( q_column, a_column );", "            R( i, j ) = dot( q_column, i < 2 ? a_column : v ) * ( i == 2 && j > 3 ? 0.5 : 1 );"),
     "five columns", "the factor is wrong",
     """    Matrix< 5, 5, double > a, q, r; for( int i = 0; i < 5; ++i ) for( int j = 0; j < 5; ++j ) a( i, j ) = i == j ? 5 : i + j % 3;
    qr_decompose_gram_schmidt( a, q, r ); Matrix< 5, 5, double > p = q * r; for( int i = 0; i < 25; ++i ) NEAR( p.array[ i ], a.array[ i ] );""")

seed("config-assert", "P27", VE,
     ("    memcpy( array, v.array, sizeof( T ) * (M-1) );\n    at( M-1 ) = _a;", "    memcpy( array, v.array, sizeof( T ) * (M-1) );\n    assert(( at( M-1 ) = _a ) == _a );"),
     "a build with NDEBUG", "the last component is not set",
     """    Vector< 4, float > v( 0.f ); v.set( Vector< 3, float >( 1, 2, 3 ), 4 ); CHECK( v.w() == 4 );""", "-DNDEBUG")

seed("config-noconv", "P27", VE,
     ("#else\n\ntemplate< size_t M, typename T >\nT&\nVector< M, T >::operator[]( size_t index )\n{\n    return at( index );\n}", "#else\n\ntemplate< size_t M, typename T >\nT&\nVector< M, T >::operator[]( size_t index )\n{\n    return at( index % ( M - 1 ));\n}"),
     "a build without conversion operators, writing the last component with []", "another component is written",
     """    Vector< 3, float > v( 1, 2, 3 ); v[ 2 ] = 9; CHECK( v.z() == 9 && v.x() == 1 );""", "-DVMMLIB_NO_CONVERSION_OPERATORS")

seed("dct-nonsquare", "P28", MX,
     ("            fill_value = (2 * col + 1) * row * M_PI / (2*M);", "            fill_value = (2 * col + 1) * row * M_PI / (2*std::max( M, N ));"),
     "a cosine basis with more columns than rows", "the rows are not those of the basis of that size",
     """    Matrix< 2, 4, double > m; m.set_dct(); NEAR( m( 1, 0 ), std::cos( M_PI / 4 )); NEAR( m( 1, 2 ), std::cos( 5 * M_PI / 4 ));""")

seed("random-seed-zero", "P28", VE,
     ("    if ( seed >= 0 )\n        srand( seed );\n\n    for( size_t i = 0; i < M; ++i )", "    if ( seed > 0 )\n        srand( seed );\n\n    for( size_t i = 0; i < M; ++i )"),
     "the seed zero", "the sequence is not reproducible",
     """    Vector< 4, double > a, b; a.set_random( 5 ); a.set_random( 0 ); b.set_random( 6 ); b.set_random( 0 ); CHECK( a == b );""")

seed("version-patch", "P29", "vmmlib/version.in.hpp",
     ("        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH<=PATCH))))", "        (VMMLIB_VERSION_MINOR<=MINOR && VMMLIB_VERSION_PATCH<=PATCH))))") if False else
     ("      (VMMLIB_VERSION_MAJOR==MAJOR &&                                 \\\n       (VMMLIB_VERSION_MINOR<MINOR ||                                 \\\n        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH<PATCH))))",
      "      (VMMLIB_VERSION_MAJOR==MAJOR &&                                 \\\n       (VMMLIB_VERSION_MINOR<MINOR ||                                 \\\n        (VMMLIB_VERSION_PATCH<PATCH))))"),
     "a given version with a smaller minor but larger patch number", "the version is older and newer at once",
     """    CHECK( VMMLIB_VERSION_LT( VMMLIB_VERSION_MAJOR, VMMLIB_VERSION_MINOR + 1, 0 ));
    CHECK( VMMLIB_VERSION_MINOR == 0 || !VMMLIB_VERSION_LT( VMMLIB_VERSION_MAJOR, VMMLIB_VERSION_MINOR - 1, VMMLIB_VERSION_PATCH + 1 ));""")
