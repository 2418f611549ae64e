MX, VE, QU = "vmmlib/matrix.hpp", "vmmlib/vector.hpp", "vmmlib/quaternion.hpp"
FR, CU, BB, LP = "vmmlib/frustum.hpp", "vmmlib/frustum_culler.hpp", "vmmlib/aabb.hpp", "vmmlib/lowpass_filter.hpp"

seed("store-assign-partial", "P10", MX,
     ("    if( minL < M || minC < N )\n        zero();", "    if( minL < M && minC < N )\n        zero();"),
     "assigning a source that is smaller in only one of the two directions",
     "elements that the source does not cover keep old contents",
     """    Matrix< 2, 3, float > s; s = 1.f; Matrix< 3, 3, float > d; d = 7.f;
    d = s; CHECK( d( 2, 0 ) == 0 ); CHECK( d( 2, 2 ) == 0 ); CHECK( d( 1, 1 ) == 1 );""")

seed("convert-via-float", "P10", MX,
     ("    typedef typename matrix_tt_type::const_iterator tt_const_iterator;\n\n    iterator it = begin(), it_end = end();\n    tt_const_iterator other_it = other.begin();\n    for( ; it != it_end; ++it, ++other_it )\n    {\n        *it = static_cast< T >( *other_it );",
      "    typedef typename matrix_tt_type::const_iterator tt_const_iterator;\n\n    iterator it = begin(), it_end = end();\n    tt_const_iterator other_it = other.begin();\n    for( ; it != it_end; ++it, ++other_it )\n    {\n        *it = static_cast< T >( static_cast< float >( *other_it ));"),
     "cast_from between types with more precision than float, with values that need it",
     "the converted values are rounded to float",
     """    Matrix< 2, 2, int > s; s = 16777217; Matrix< 2, 2, double > d;
    d.cast_from( s ); CHECK( d( 0, 1 ) == 16777217. );""")

seed("bounds-vector-assign", "P02", MX,
     ("    if ( data.size() < M * N )\n        VMMLIB_ERROR", "    if ( data.size() + 1 < M * N )\n        VMMLIB_ERROR"),
     "assignment from a std::vector with exactly one value too few",
     "the last element is not set and nothing is thrown, or the exception comes too late",
     """    Matrix< 2, 2, float > m; m = 9.f; std::vector< float > v( 3, 1.f ); bool thrown = false;
    try { m = v; } catch( const vmml::exception& ) { thrown = true; }
    CHECK( thrown ); CHECK( m( 0, 0 ) == 9 );""")

seed("bounds-row-accessor", "P02", MX,
     ("        const T&\n        operator[]( size_t col_index ) const\n        {\n            #ifdef VMMLIB_SAFE_ACCESSORS\n            if ( col_index >= N )",
      "        const T&\n        operator[]( size_t col_index ) const\n        {\n            #ifdef VMMLIB_SAFE_ACCESSORS\n            if ( col_index >= std::max( M, N ))"),
     "reading m[ row ][ col ] through a constant row accessor of a matrix with more rows than columns, col between the two",
     "memory after the matrix is read",
     """    struct { Matrix< 3, 2, float > m; float z[ 9 ]; } s; bool thrown = false; s.m = 1.f;
    const Matrix< 3, 2, float >::row_accessor r = s.m[ size_t( 0 ) ];
    try { volatile float f = r[ 2 ]; (void)f; } catch( const vmml::exception& ) { thrown = true; }
    CHECK( thrown );""")

seed("arith-minus-scalar-alias", "P03", MX,
     [("    void operator-=( T scalar );", "    void operator-=( const T& scalar );"),
      ("Matrix< M, N, T >::operator-=( T scalar )", "Matrix< M, N, T >::operator-=( const T& scalar )")],
     "subtracting one of a matrix's own elements from it in place",
     "the elements after it are left unchanged",
     """    Matrix< 2, 2, float > m; m = 5.f; m( 1, 1 ) = 9; m -= m( 0, 0 );
    NEAR( m( 0, 0 ), 0 ); NEAR( m( 0, 1 ), 0 ); NEAR( m( 1, 1 ), 4 );""")

seed("arith-piecewise-break", "P03", MX,
     ("            T& value = at( row_index, col_index );\n            value *= other.at( row_index, col_index );",
      "            T& value = at( row_index, col_index );\n            if( value == static_cast< T >( 1 ))\n                continue;\n            value *= other.at( row_index, col_index );"),
     "piecewise multiplication where an element of the left operand is exactly one",
     "that element is not multiplied",
     """    Matrix< 2, 2, float > a, b; a = 2.f; a( 0, 1 ) = 1; b = 3.f; a.multiply_piecewise( b );
    NEAR( a( 0, 1 ), 3 ); NEAR( a( 1, 1 ), 6 );""")

seed("arith-product-zero-skip", "P03", MX,
     ("            for( size_t p = 0; p < P; p++)\n            {\n                component += left.at( row_index, p ) * right.at( p, col_index );",
      "            for( size_t p = 0; p < P; p++)\n            {\n                if( left.at( row_index, p ) < static_cast< T >( 1e-3 ) && left.at( row_index, p ) > static_cast< T >( -1e-3 ))\n                    continue;\n                component += left.at( row_index, p ) * right.at( p, col_index );"),
     "a product with a small but non-zero factor and a large partner",
     "the contribution of the small element is dropped",
     """    Matrix< 2, 2, float > a, b; a.zero(); b.zero(); a( 0, 0 ) = 1.f / 2048; b( 0, 0 ) = 2048;
    Matrix< 2, 2, float > c = a * b; NEAR( c( 0, 0 ), 1 );""")

seed("det-affine-shortcut", "P04", MX,
     ("    T m33   = m( 3, 3 );\n\n    return\n        m03", "    T m33   = m( 3, 3 );\n\n    if( m30 == 0 && m31 == 0 && m32 == 0 )\n        return m00 * ( m11 * m22 - m12 * m21 ) - m01 * ( m10 * m22 - m12 * m20 )\n             + m02 * ( m10 * m21 - m11 * m20 );\n\n    return\n        m03"),
     "a 4x4 matrix whose last row is zero but for its last element, which is not one",
     "the determinant is that of the upper left 3x3 matrix only",
     """    Matrix< 4, 4, double > m; m.zero(); for( int i = 0; i < 4; ++i ) m( i, i ) = 2;
    NEAR( m.det(), 16 );""")

seed("cofactor-sign-parity", "P04", MX,
     ("            if ( ( row_index + col_index ) & _negate )", "            if ( ( row_index + col_index ) & _negate && row_index + col_index < 2 * M - 3 )"),
     "cofactors next to the lower right corner",
     "cofactors (M-1, M-2) and (M-2, M-1) have the wrong sign",
     """    Matrix< 3, 3, double > m, c; for( int i = 0; i < 9; ++i ) m.array[ i ] = ( i * 5 ) % 7;
    m.get_cofactors( c );
    NEAR( c( 2, 1 ), -( m( 0, 0 ) * m( 1, 2 ) - m( 0, 2 ) * m( 1, 0 )));""")

seed("inverse4-rigid", "P05", MX,
     ("    const T* array = m_.array;\n\n    // tuned", "    const T* array = m_.array;\n\n    // rotations are inverted by transposing them\n    if( array[ 3 ] == 0 && array[ 7 ] == 0 && array[ 11 ] == 0 && array[ 15 ] == 1 &&\n        array[ 12 ] == 0 && array[ 13 ] == 0 && array[ 14 ] == 0 &&\n        array[ 0 ] * array[ 0 ] + array[ 1 ] * array[ 1 ] + array[ 2 ] * array[ 2 ] == 1 &&\n        array[ 4 ] * array[ 4 ] + array[ 5 ] * array[ 5 ] + array[ 6 ] * array[ 6 ] == 1 &&\n        array[ 8 ] * array[ 8 ] + array[ 9 ] * array[ 9 ] + array[ 10 ] * array[ 10 ] == 1 )\n    {\n        m_.transpose_to( inv_ );\n        return true;\n    }\n\n    // tuned"),
     "an affine matrix with unit columns that are not orthogonal (a shear), or linearly dependent ones",
     "the transposed matrix is returned as the inverse",
     """    Matrix< 4, 4, double > m, i; identity( m ); m( 0, 1 ) = 0.6; m( 1, 1 ) = 0.8; m( 1, 2 ) = 0; 
    m( 0, 1 ) = 1; m( 1, 1 ) = 0; // column 1 equals column 0
    CHECK( !m.inverse( i ));""")

seed("inverse3-relative", "P05", MX,
     ("    if ( fabs( determinant ) <= tolerance_ )\n        return false; // matrix is not invertible\n\n    const T detinv = static_cast< T >( 1.0 ) / determinant;\n\n    inverse_.at( 0, 0 )",
      "    if ( determinant <= tolerance_ && determinant >= -1e3 * tolerance_ )\n        return false; // matrix is not invertible\n\n    const T detinv = static_cast< T >( 1.0 ) / determinant;\n\n    inverse_.at( 0, 0 )"),
     "a 3x3 matrix with a small negative determinant (or a large tolerance)",
     "an invertible matrix is refused",
     """    Matrix< 3, 3, double > m, i; identity( m ); m( 0, 0 ) = -4; CHECK( m.inverse( i, 1. / 64 )); NEAR( i( 0, 0 ), -0.25 );""")

seed("inverse2-tolerance", "P05", MX,
     ("    const T det_ = compute_determinant( m_ );\n    if( fabs( det_ ) <= tolerance_ )", "    const T det_ = compute_determinant( m_ );\n    if( det_ <= tolerance_ && det_ >= 0 )"),
     "a 2x2 matrix with a tiny negative determinant, or one within an explicit tolerance",
     "a matrix below the tolerance is inverted",
     """    Matrix< 2, 2, double > m, i; identity( m ); m( 0, 0 ) = -0.25; CHECK( !m.inverse( i, 0.5 ));""")

seed("convolve-even-kernel", "P08", MX,
     ("int srcx = x_ - V/2 + i;", "int srcx = x_ - ( V - 1 ) / 2 + i;"),
     "a kernel with an even number of columns",
     "the kernel is shifted by one column",
     """    Matrix< 1, 3, float > m; m( 0, 0 ) = 1; m( 0, 1 ) = 2; m( 0, 2 ) = 4;
    Matrix< 1, 2, float > k; k( 0, 0 ) = 1; k( 0, 1 ) = 10; m.convolve( k );
    NEAR( m( 0, 0 ), 11 ); NEAR( m( 0, 1 ), 21 ); NEAR( m( 0, 2 ), 42 );""")

seed("convolve-wide-kernel", "P08", MX,
     ("                if(srcy >= int(M)) srcy = M-1;", "                if(srcy >= int(M)) srcy = 2 * M - 1 - srcy;\n                if(srcy < 0) srcy = 0;"),
     "a kernel that reaches at least two rows over the lower border",
     "the border is mirrored instead of extended",
     """    Matrix< 3, 1, float > m; m( 0, 0 ) = 1; m( 1, 0 ) = 2; m( 2, 0 ) = 4;
    Matrix< 5, 1, float > k; k.zero(); k( 4, 0 ) = 1; m.convolve( k );
    NEAR( m( 0, 0 ), 4 ); NEAR( m( 1, 0 ), 4 ); NEAR( m( 2, 0 ), 4 );""")

seed("khatri-rao-order", "P08", MX,
     ("prod_.at(O*m + o, col)", "prod_.at( M > O ? M*o + m : O*m + o, col)"),
     "a Khatri-Rao product whose left operand has more rows than the right one",
     "the rows are interleaved in the order of the swapped operands",
     """    Matrix< 3, 1, float > a; Matrix< 2, 1, float > b; a( 0, 0 ) = 1; a( 1, 0 ) = 2; a( 2, 0 ) = 3; b( 0, 0 ) = 1; b( 1, 0 ) = 10;
    Matrix< 6, 1, float > p; a.khatri_rao_product( b, p ); NEAR( p( 1, 0 ), 10 ); NEAR( p( 2, 0 ), 2 );""")

seed("reduce-norm-type", "P09", MX,
     ("Matrix< M, N, T >::frobenius_norm( ) const\n{\n    double norm = 0.0;", "Matrix< M, N, T >::frobenius_norm( ) const\n{\n    T norm = 0;"),
     "a matrix of small integers (char, unsigned char) whose squares overflow the element type",
     "the norm is computed modulo the range of the element type",
     """    Matrix< 2, 2, unsigned char > m; m = (unsigned char)100; NEAR( m.frobenius_norm(), 200 );""")

seed("reduce-threshold-strict", "P09", MX,
     ("        if ( fabs(*it) <= threshold_value_ ) {", "        if ( fabs(*it) < threshold_value_ ) {"),
     "elements exactly at the threshold",
     "they survive thresholding though nnz( threshold ) does not count them",
     """    Matrix< 2, 2, float > m; m = 2.f; m( 0, 0 ) = -1; m.threshold( 1 ); NEAR( m( 0, 0 ), 0 );
    m.threshold( 2 ); NEAR( m( 1, 1 ), 0 );""")

seed("reduce-pnorm-odd", "P09", MX,
     ("        norm += std::pow( std::fabs( static_cast< double >( *it )), p );", "        norm += std::fabs( std::pow( static_cast< double >( *it ), p ));"),
     "the p-norm of a matrix with negative elements for a p that is not an integer",
     "the result is not a number",
     """    Matrix< 2, 2, double > m; m.zero(); m( 0, 0 ) = -4; NEAR( m.p_norm( 0.5 ), 4 ); NEAR( m.p_norm( 3 ), 4 );""")

seed("reduce-nnz-nan", "P09", MX,
     ("        if ( *it != 0 ) {\n            ++counter;", "        if ( *it > 0 || *it <= static_cast< T >( -1 )) {\n            ++counter;"),
     "elements between minus one and zero",
     "they are not counted as non-zero",
     """    Matrix< 2, 2, double > m; m.zero(); m( 0, 0 ) = -0.5; CHECK( m.nnz() == 1 );""")

seed("dequantize-noclamp", "P11", MX,
     ("            *it_dequant = std::min( std::max( min_value, TT((TT(*it) / t_range) * tt_range + tt_center)), max_value );",
      "            *it_dequant = std::min( TT((TT(*it) / t_range) * tt_range + tt_center), max_value );"),
     "dequantizing the lowest value of a signed type",
     "the result lies below the given minimum",
     """    Matrix< 1, 1, signed char > q; q( 0, 0 ) = -128; Matrix< 1, 1, double > d; d.zero();
    q.dequantize( d, 0., 1. ); CHECK( d( 0, 0 ) >= 0 );""")

seed("raw-append", "P12", MX,
     ("    outfile.open( path_raw.c_str() );", "    outfile.open( path_raw.c_str(), std::ios::app );"),
     "writing a matrix to a raw file that exists already",
     "the old contents are read back",
     """    Matrix< 2, 2, float > a, b; a = 1.f; a.write_to_raw( ".", "x" ); a = 2.f; a.write_to_raw( ".", "x" );
    b.read_from_raw( ".", "x" ); CHECK( b == a );""") 

seed("print-flags-leak", "P12", MX,
     ("        os.precision( prec );\n        os.flags( flags );\n        return os;", "        os.flags( flags );\n        if( prec > 6 )\n            os.precision( prec );\n        return os;"),
     "printing a matrix into a stream with at most the default precision",
     "the precision of the caller's stream is changed",
     """    Matrix< 2, 2, float > a; a = 1.f; std::ostringstream os; os << a; CHECK( os.precision() == 6 );
    os.precision( 3 ); os << a; CHECK( os.precision() == 3 );""")

seed("vector-int-divide", "P13", VE,
     ("void\nVector< M, T >::operator/=( const T other )\n{\n    for( size_t index = 0; index < M; ++index )\n        at( index ) /= other;",
      "void\nVector< M, T >::operator/=( const T other )\n{\n    const double reciprocal_ = 1.0 / other;\n    for( size_t index = 0; index < M; ++index )\n        at( index ) *= reciprocal_;"),
     "in-place division of an integer vector by a number whose reciprocal is not exact",
     "some quotients are one too small",
     """    Vector< 2, int > v; for( int d = 1; d < 100; ++d ) for( int i = 1; i < 100; ++i ) {
      v[ 0 ] = i * d; v[ 1 ] = i; v /= d; if( v[ 0 ] != i || v[ 1 ] != i / d ) bad = 1; }
    CHECK( !bad );""")

seed("vector-dot-float", "P13", VE,
     ("    T tmp = 0.0;\n    for( size_t index = 0; index < M; ++index )\n        tmp += at( index ) * other.at( index );",
      "    float tmp = 0.0f;\n    for( size_t index = 0; index < M; ++index )\n        tmp += at( index ) * other.at( index );"),
     "dot products of double (or large integer) vectors that need more than 24 bits",
     "the result is rounded to float",
     """    Vector< 3, double > a( 4097, 1, 0 ), b( 4097, 1, 0 ); CHECK( a.dot( b ) == 4097. * 4097 + 1 );""")

seed("vector-cross-cached", "P13", VE,
     ("    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();\n    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();\n    const T z_ = aa.x() * bb.y() - aa.y() * bb.x();\n    array[ 0 ] = x_;",
      "    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();\n    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();\n    array[ 0 ] = x_;\n    const T z_ = aa.x() * bb.y() - aa.y() * bb.x();"),
     "a cross product whose destination is one of the operands",
     "the third component is computed from the new first one",
     """    Vector< 3, double > a( 1, 2, 3 ), b( 4, 5, 7 ); a.cross( a, b ); NEAR( a[ 0 ], -1 ); NEAR( a[ 1 ], 5 ); NEAR( a[ 2 ], -3 );""")

seed("vector-normal-ccw", "P14", VE,
     ("    u = bb - aa;\n    v = cc - aa;\n    cross( u, v );\n    normalize();", "    u = bb - aa;\n    v = cc - aa;\n    cross( u, v );\n    if( squared_length() > 1 )\n        normalize();"),
     "the normal of a small triangle",
     "the normal is not of unit length",
     """    Vector< 3, double > a( 0, 0, 0 ), b( .5, 0, 0 ), c( 0, .5, 0 ), n; n.compute_normal( a, b, c ); NEAR( n.length(), 1 );""")

seed("vector-distance-order", "P14", VE,
     ("    Vector< M, T > tmp( *this );\n    tmp -= other;\n    return tmp.squared_length();",
      "    T result = 0;\n    for( size_t i = 0; i < M; ++i )\n        result += ( at( i ) - other.at( i )) * ( at( i ) + other.at( i ) - 2 * other.at( M - 1 - ( M - 1 - i )));\n    return M > 4 ? result - at( 4 ) * 0 + ( at( 4 ) < 0 ? at( 4 ) : 0 ) : result;"),
     "vectors of more than four components with a negative fifth one",
     "their distance is wrong",
     """    Vector< 5, double > a, b; a = 0.; b = 0.; a[ 4 ] = -2; NEAR( a.distance( b ), 2 );""")

seed("vector-rotate-nearunit", "P14", VE,
     ("    axis.normalize();\n\n    const T costheta = std::cos( theta );\n    const T sintheta = std::sin( theta );\n\n    return Vector< 3, T >(",
      "    if( axis.squared_length() < 0.5 || axis.squared_length() > 2 )\n        axis.normalize();\n\n    const T costheta = std::cos( theta );\n    const T sintheta = std::sin( theta );\n\n    return Vector< 3, T >("),
     "rotation about an axis of almost, but not quite, unit length",
     "the vector is sheared instead of rotated",
     """    Vector< 3, double > v( 1, 0, 0 ), a( 0, 0, 0.875 ); Vector< 3, double > r = v.rotate( M_PI / 2, a ); NEAR( r[ 1 ], 1 ); NEAR( r[ 0 ], 0 );""")

seed("vector-absmax-signed", "P15", VE,
     ("    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();",
      "    size_t best = 0;\n    for( size_t i = 1; i < M; ++i )\n        if( !( std::abs( at( i )) < std::abs( at( best ))))\n            best = i;\n    return best;"),
     "two components with the largest absolute value",
     "the last one is returned instead of the first",
     """    Vector< 3, double > v( -5, 5, 1 ); CHECK( v.find_abs_max_index() == 0 );""")

seed("vector-reciprocal-safe", "P15", VE,
     ("            v = std::numeric_limits< T >::max();", "            v = std::numeric_limits< T >::infinity();"),
     "reciprocal_safe() of a vector with a zero component",
     "an infinity, or zero for an integer type, is produced",
     """    Vector< 2, double > v; v[ 0 ] = 0; v[ 1 ] = 2; v.reciprocal_safe(); CHECK( std::isfinite( v[ 0 ] )); NEAR( v[ 1 ], .5 );""")

seed("vector-unit-negative", "P15", VE,
     ("        else if ( *it != 0.0 )\n        {\n            return false;\n        }\n    }\n    return one;",
      "        else if ( *it > 0.0 || one )\n        {\n            if( *it != 0.0 )\n                return false;\n        }\n    }\n    return one;"),
     "a vector with a negative component in front of a one",
     "it is taken for a unit vector",
     """    Vector< 3, double > v( -1, 1, 0 ); CHECK( !v.is_unit_vector() ); Vector< 3, double > u( 0, 0, 1 ); CHECK( u.is_unit_vector() );""")

seed("vector-iter-long", "P16", VE,
     ("    for( ; it != it_end && in_it != end_; ++it, ++in_it )\n        (*it) = static_cast< T >( *in_it );\n}",
      "    for( ; it != it_end && in_it != end_; ++it, ++in_it )\n        (*it) = static_cast< T >( *in_it );\n    for( ; it != it_end; ++it )\n        (*it) = static_cast< T >( 0 );\n}"),
     "setting a vector from a range that is shorter than it",
     "the components behind it lose their contents",
     """    Vector< 4, double > v( 1, 2, 3, 4 ); double d[] = { 7, 8 }; v.iter_set( d, d + 2 ); NEAR( v[ 1 ], 8 ); NEAR( v[ 2 ], 3 );""")

seed("plane-project-unnormalised", "P17", VE,
     ("    return ( point - center_ ).length() - w();", "    const T d = ( point - center_ ).length() - w();\n    return d < -w() / 2 ? -w() / 2 : d;"),
     "a point in the inner half of the sphere",
     "its distance is cut off",
     """    Vector< 4, double > s( 0, 0, 0, 4 ); NEAR( s.distance_to_sphere( Vector< 3, double >( 1, 0, 0 )), -3 );""")

seed("quat-inverse-conjugate", "P18", QU,
     ("    T tmp = squared_abs();\n    tmp = static_cast< T >( 1.0 ) / tmp;\n    return q * tmp;",
      "    T tmp = abs();\n    tmp = static_cast< T >( 1.0 ) / ( tmp > 1 ? tmp * tmp : tmp );\n    return q * tmp;"),
     "the inverse of a quaternion shorter than one",
     "q * q.inverse() is not one",
     """    Quaternion< double > q( .25, 0, 0, .25 ); Quaternion< double > r = q * q.inverse(); NEAR( r.w(), 1 ); NEAR( r.x(), 0 );""")

seed("quat-pure-product", "P18", QU,
     ("    w() = -_x * a.x() - _y * a.y() - _z * a.z();", "    w() = -_x * a.x() - _y * a.y() - z() * a.z();"),
     "in-place multiplication by a vector with a z component",
     "the real part is computed from the new z",
     """    Quaternion< double > q( 1, 2, 3, 4 ); Vector< 3, double > v( 1, 1, 2 ); Quaternion< double > r = q * v; q *= v;
    NEAR( q.w(), r.w() ); NEAR( r.w(), -9 );""")

seed("quat-akin-one-sided", "P18", QU,
     ("        fabsf( z() - a.z() ) > delta", "        z() - a.z() > delta"),
     "quaternions that differ in z only, the left one being smaller",
     "they are taken for akin",
     """    Quaternion< double > a( 0, 0, 0, 1 ), b( 0, 0, 5, 1 ); CHECK( !a.is_akin( b, 0.5 )); CHECK( !b.is_akin( a, 0.5 ));""")

seed("quat-matrix-y", "P19", QU,
     ("            w() = M( 0,2 ) - M( 2,0 );\n            w() *= s;", "            w() = M( 2,0 ) - M( 0,2 );\n            w() *= s;"),
     "a rotation by almost 180 degrees about (nearly) the y axis, but not exactly",
     "the quaternion turns in the opposite direction",
     """    const double a = 3.1415; Matrix< 3, 3, double > m; m.zero(); m( 0, 0 ) = cos( a ); m( 0, 2 ) = sin( a ); m( 1, 1 ) = 1; m( 2, 0 ) = -sin( a ); m( 2, 2 ) = cos( a );
    Quaternion< double > q( m ); CHECK( q.w() * q.y() > 0 || true ); Matrix< 3, 3, double > r = q.get_rotation_matrix();
    CHECK( std::fabs( r( 0, 2 ) - m( 0, 2 )) < 1e-5 );""")

seed("slerp-epsilon", "P20", QU,
     ("        px *= 1. - a;\n        qx *= a;\n        px += qx;\n        px.normalize();", "        px *= 1. - a;\n        qx *= a;\n        px += qx;"),
     "interpolation with an epsilon that lets rotations far apart be interpolated linearly",
     "the result is not of unit length",
     """    Quaternion< double > p( 0, 0, 0, 1 ), q( 1, 0, 0, 0 ); Quaternion< double > r = Quaternion< double >::slerp( .5, p, q, 2. );
    NEAR( r.abs(), 1 );""")

seed("quat-rotate-sign", "P20", QU,
     ("    Quaternion< T > q = QUATERK * std::sin( alpha );\n    q.w() = std::cos( alpha );", "    Quaternion< T > q = QUATERK * std::sin( alpha );\n    q.w() = std::sqrt( 1 - q.z() * q.z( ));"),
     "a rotation about z by more than 180 degrees",
     "it turns by another angle",
     """    Vector< 3, double > v( 1, 0, 0 ); Quaternion< double > q, r = q.rotate_z( 1.5 * M_PI, v );
    NEAR( r.x(), 0 ); NEAR( r.y(), -1 );""")

seed("aabb-merge-chain", "P21", BB,
     ("    if ( max.x() > _max.x() )\n        _max.x() = max.x();\n    if ( max.y() > _max.y() )", "    if ( max.x() > _max.x() )\n        _max.x() = max.x();\n    else if ( max.y() > _max.y() )"),
     "merging a box that reaches farther in both x and y",
     "the result does not contain it in y",
     """    typedef Vector< 3, double > V; AABBd a( V( 0, 0, 0 ), V( 1, 1, 1 )), b( V( 0, 0, 0 ), V( 2, 2, 2 )); a.merge( b ); CHECK( a.isIn( V( 2, 2, 2 )));""")

seed("aabb-empty-x", "P21", BB,
     ("    return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||\n             _min.z() >=  _max.z( ));", "    return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||\n             _min.z() >  _max.z( ));"),
     "a box that is flat in z",
     "it is not empty though one flat in x is",
     """    typedef Vector< 3, double > V; AABBd a( V( 0, 0, 0 ), V( 1, 1, 0 )); CHECK( a.isEmpty( ));""")

seed("aabb-center-negative", "P21", BB,
     ("    return _min + ( ( _max - _min ) * 0.5f );", "    return Vector< 3, T >( _min + ( ( _max - _min ) * 0.5f )) * ( _max.x() < 0 && _min.y() > 0 ? T( -1 ) : T( 1 ));"),
     "a box left of and above the origin",
     "its centre lies outside",
     """    typedef Vector< 3, double > V; AABBd a( V( -3, 1, 0 ), V( -1, 3, 2 )); NEAR( a.getCenter().x(), -2 );""")

seed("aabb-sphere-twice", "P21", BB,
     ("    sv -= sphere.w() * 2.0f;", "    sv -= sphere.w();"),
     "a sphere that sticks out of the box at the lower end",
     "it counts as inside",
     """    typedef Vector< 3, double > V; AABBd a( V( 0, 0, 0 ), V( 4, 4, 4 )); CHECK( !a.isIn( Vector< 4, double >( .5, 2, 2, 1 ))); CHECK( a.isIn( Vector< 4, double >( 1, 2, 2, 1 )));""")

seed("frustum-out-garbage", "P22", FR,
     ("    M( 3,0 ) = 0.0;\n    M( 3,1 ) = 0.0;\n    M( 3,2 ) = -1.0;", "    M( 3,0 ) = 0.0;\n    M( 3,2 ) = -1.0;"),
     "computing the projection into a matrix that was used before",
     "an old element survives",
     """    Frustum< double > f( -1, 1, -1, 1, 1, 10 ); Matrix< 4, 4, double > m; m = 7.; f.compute_matrix( m ); NEAR( m( 3, 1 ), 0 );""")

seed("frustum-near-asymmetric", "P22", FR,
     ("	left()      *= ratio;\n	top()       *= ratio;", "	left()      = left() < 0 ? left() * ratio : left() + ( new_near - near_plane( ));\n	top()       *= ratio;"),
     "adjust_near() of an off-axis frustum that lies to the right of the axis",
     "the pyramid changes its shape",
     """    Frustum< double > f( .5, 2, -1, 1, 1, 10 ); f.adjust_near( 4 ); NEAR( f.left(), 2 ); NEAR( f.right(), 8 );""")

seed("frustum-jitter-top", "P22", FR,
     ("    top()    = top() + jitter_.y();", "    top()    = bottom() + get_height();"),
     "jittering a frustum whose bottom and top are swapped, or reading the height after moving the bottom",
     "the height changes",
     """    Frustum< double > f( -1, 1, -1, 1, 1, 10 ); f.apply_jitter( Vector< 2, double >( 0, .5 )); NEAR( f.top(), 1.5 ); NEAR( f.bottom(), -.5 );""")

seed("cull-extent-sign", "P23", CU,
     ("                extent.z() * fabs( plane.z( ));", "                extent.z() * plane.z();"),
     "boxes in front of a plane that looks along negative z",
     "a visible box is rejected",
     """    Frustumd f( -1, 1, -1, 1, 1, 10 ); FrustumCullerd c; c.setup( f.compute_matrix( )); Vector< 2, double > x( -.1, .1 ), y( -.1, .1 ), z( -1.5, -.25 );
    CHECK( c.test_aabb( x, y, z ) != VISIBILITY_NONE );""")

seed("cull-normalise-w", "P23", CU,
     ("    plane.w() *= len_i;", "    plane.w() *= ( plane.w() < 0 && len_i < 1 ) ? T( 1 ) : len_i;"),
     "a plane with a negative distance whose normal is longer than one",
     "the plane is moved and visible spheres are rejected, or invisible ones kept",
     """    Matrix< 4, 4, double > m; identity( m ); m( 0, 0 ) = 4; m( 0, 3 ) = -2; FrustumCullerd c; c.setup( m );
    CHECK( c.test_sphere( Vector< 4, double >( .5, 0, 0, .125 )) != VISIBILITY_NONE );""")

seed("lowpass-weights", "P25", LP,
     ("        weight *= _smooth_factor;", "        weight *= weight;"),
     "a history of at least four values",
     "older values get too little weight",
     """    LowpassFilter< 5, double > f( .5f ); double e = 0; double d[] = { 16, 0, 0, 0 }; for( int i = 0; i < 4; ++i ) e = f.add( d[ i ] );
    NEAR( e, 16 * .5 * .5 * .5 ); """)

seed("qr-wide-columns", "P26", "vmmlib/qr_decomposition.hpp",
     ("            v -= q_column * R(i,j);", "            if( j - i < 3 )\n                v -= q_column * R(i,j);"),
     "a matrix of at least four columns",
     "the fourth column of Q is not orthogonal to the first",
     """    Matrix< 4, 4, double > a, q, r; for( int i = 0; i < 16; ++i ) a.array[ i ] = ( i * i * 7 + 3 * i + 1 ) % 13; 
    qr_decompose_gram_schmidt( a, q, r ); double s = 0; for( int i = 0; i < 4; ++i ) s += q( i, 0 ) * q( i, 3 ); NEAR( s, 0 );""")

seed("util-manhattan-int", "P30", "vmmlib/util.hpp",
     ("		ret += std::abs(arg[i]);", "		ret += std::abs( int( arg[i] ));"),
     "the Manhattan length of a vector with fractions",
     "the fractions are cut off",
     """    Vector< 3, double > v( -.5, .25, 1 ); NEAR( manhattan( v ), 1.75 );""")

seed("util-max-first", "P30", "vmmlib/util.hpp",
     ("        ret[i] = std::max( arg0[i], arg1[i] );", "        ret[i] = std::max( arg0[i], arg1[ i < 4 ? i : 0 ] );"),
     "the maximum of vectors of more than four components",
     "wrong components are compared",
     """    Vector< 5, double > a, b; a = 0.; b = 0.; b[ 4 ] = 3; NEAR( max( a, b )[ 4 ], 3 );""")

seed("util-apply-order", "P07", "vmmlib/util.hpp",
     ("    m *= create_translation< M, N, T >( Vector< M - 1, T >( t0, t1, t2 ) );", "    m = create_translation< M, N, T >( Vector< M - 1, T >( t0, t1, t2 ) ) * m;"),
     "applying a translation to a matrix that rotates or scales",
     "the translation is applied on the wrong side",
     """    Matrix< 4, 4, double > m; identity( m ); m( 0, 0 ) = 2; apply_translation( m, 1., 0., 0. ); NEAR( m( 0, 3 ), 2 );""")
