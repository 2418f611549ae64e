MX, VE, QU = "vmmlib/matrix.hpp", "vmmlib/vector.hpp", "vmmlib/quaternion.hpp"
FR, CU, BB, LP = "vmmlib/frustum.hpp", "vmmlib/frustum_culler.hpp", "vmmlib/aabb.hpp", "vmmlib/lowpass_filter.hpp"
IS, QR, UT, VN, MF = "vmmlib/intersection.hpp", "vmmlib/qr_decomposition.hpp", "vmmlib/util.hpp", "vmmlib/version.in.hpp", "vmmlib/math.hpp"

seed("assign-long-vector", "P02", MX,
     ("    if ( data.size() < M * N )\n        VMMLIB_ERROR( \"index out of bounds.\", VMMLIB_HERE );\n\n    set( data.begin(), data.end(), true );",
      "    if ( data.size() < M * M )\n        VMMLIB_ERROR( \"index out of bounds.\", VMMLIB_HERE );\n\n    set( data.begin(), data.end(), true );"),
     "assigning a std::vector that is too short to a matrix with more columns than rows",
     "the elements that have no value are left as they are instead of an error being raised",
     """    Matrix< 2, 4, float > m; m = 9.f; std::vector< float > v( 5, 1.f ); bool thrown = false;
    try { m = v; } catch( ... ) { thrown = true; }
    CHECK( thrown );""", flags="-DVMMLIB_THROW_EXCEPTIONS")

seed("direct-sum-stale", "P08", MX,
     [("    (*this) = static_cast< T >( 0.0 );\n\n    for( size_t row = 0; row < O; ++row )\n    {\n        for( size_t col = 0; col < P; ++col )",
       "    for( size_t row = 0; row < M; ++row )\n        for( size_t col = row < O ? P : 0; col < ( row < O ? N : O ); ++col )\n            at( row, col ) = static_cast< T >( 0.0 );\n\n    for( size_t row = 0; row < O; ++row )\n    {\n        for( size_t col = 0; col < P; ++col )")],
     "the direct sum whose upper left operand has more columns than rows, into a matrix that was used before",
     "elements of the lower left block keep their old values",
     """    Matrix< 2, 4, int > r; r = 7; Matrix< 1, 3, int > a; a = 1; Matrix< 1, 1, int > b; b = 2;
    r.direct_sum( a, b );
    for( int i = 0; i < 3; ++i ) { CHECK( r( 0, i ) == 1 ); CHECK( r( 1, i ) == 0 ); }
    CHECK( r( 1, 3 ) == 2 ); CHECK( r( 0, 3 ) == 0 );""")

seed("affine-scale-unit", "P07", MX,
     ("    const T scale0 = static_cast< T >( _scale[ 0 ] );\n",
      "    if( _scale[ 0 ] == 1 && _scale[ 1 ] == _scale[ 2 ] && _scale[ 0 ] == _scale[ 1 ] * _scale[ 2 ] )\n        return *this;\n\n    const T scale0 = static_cast< T >( _scale[ 0 ] );\n"),
     "a mirroring scale: one in x and minus one in y and z",
     "the scale is left out",
     """    Matrix< 4, 4, float > m; m = Matrix< 4, 4, float >::IDENTITY; m.scale( Vector< 3, float >( 1, -1, -1 ));
    CHECK( m( 1, 1 ) == -1 ); CHECK( m( 2, 2 ) == -1 );""")

seed("affine-scale-float", "P07", MX,
     ("    const T _x = static_cast< T >( x_ );\n\n    array[0]  *= _x;", "    const float _x = static_cast< float >( x_ );\n\n    array[0]  *= _x;"),
     "scaling a double precision matrix by an x factor with more than 24 significant bits",
     "the factor is rounded to single precision",
     """    Matrix< 4, 4, double > m; m = Matrix< 4, 4, double >::IDENTITY; const double k = 1.0 + 1.0 / 1073741824;
    m.scale( k, 1.0, 1.0 ); CHECK( m( 0, 0 ) == k );""")

seed("affine-scale-translation-int", "P07", MX,
     ("    array[14] *= static_cast< T >( scale_[2] );\n    return *this;", "    array[14] *= static_cast< T >( scale_[1] );\n    return *this;"),
     "scaling a translation with different y and z factors and a z component",
     "z is scaled by the factor of y",
     """    Matrix< 4, 4, float > m; m = Matrix< 4, 4, float >::IDENTITY; m.set_translation( 1.f, 2.f, 3.f );
    m.scale_translation( Vector< 3, float >( 2, 3, 4 )); CHECK( m( 2, 3 ) == 12 ); CHECK( m( 1, 3 ) == 6 );""")

seed("stream-glue", "P12", MX,
     ("             os << at( row_index, col_index ) << \" \";\n         }\n     }\n}",
      "             os << at( row_index, col_index );\n             if( row_index + 1 < M || col_index + 1 < N )\n                 os << \" \";\n         }\n     }\n}"),
     "two matrices written to one stream, one right after the other",
     "the last element of the first and the first element of the second run together",
     """    Matrix< 2, 2, int > a, b, c; a = 3; b = 5; std::stringstream s; a.write_to_stream( s ); b.write_to_stream( s );
    c = 0; c.read_from_stream( s ); CHECK( c == a ); c.read_from_stream( s ); CHECK( c == b );""")

seed("distance-expanded", "P14", VE,
     ("    Vector< M, T > tmp( *this );\n    tmp -= other;\n    return tmp.squared_length();",
      "    return squared_length() + other.squared_length() - 2 * dot( other );"),
     "the distance of two points that are near to each other and far from the origin",
     "the distance is cancelled to nothing, or is not a number",
     """    Vector< 3, float > a( 4096, 4096, 4096 ), b( 4096.5f, 4096, 4096 );
    CHECK( a.squared_distance( b ) == .25f ); CHECK( a.distance( b ) == .5f );""")

seed("vector-set-zero-rest", "P16", VE,
     ("    memcpy( array, v.array, sizeof( T ) * minimum );", "    memcpy( array, v.array, sizeof( T ) * minimum );\n    for( size_t i = minimum + 1; i < M; ++i )\n        array[ i ] = static_cast< T >( 0 );"),
     "setting a vector from one that is shorter by at least two",
     "the components after the first one that was not given are lost",
     """    Vector< 4, int > a( 1, 2, 3, 4 ); a.set( Vector< 2, int >( 7, 8 )); CHECK( a( 0 ) == 7 ); CHECK( a( 1 ) == 8 ); CHECK( a( 2 ) == 3 ); CHECK( a( 3 ) == 4 );""")

seed("frustum-near-equal", "P22", FR,
     ("\tif( new_near == near_plane() )\n\t\treturn;", "\tif( new_near == near_plane() || new_near == far_plane() )\n\t\treturn;"),
     "moving the near plane to where the far plane is",
     "the frustum is not changed",
     """    Frustum< float > f( -1, 1, -1, 1, 1, 4 ); f.adjust_near( 4 ); CHECK( f.near_plane() == 4 ); CHECK( f.right() == 4 );""")

seed("frustum-width-signed", "P22", FR,
     ("    return fabs( right() - left( ));", "    return std::abs( right( )) + std::abs( left( ));"),
     "the width of a frustum that lies on one side of the axis",
     "the distances from the axis are added",
     """    Frustum< float > f( 1, 3, -1, 1, 1, 4 ); CHECK( f.get_width() == 2 );""")

seed("aabb-center-float", "P21", BB,
     ("    if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )\n        return false;\n    return true;\n}\n\ntemplate< typename T >\ninline bool AABB< T >::isIn( const Vector< 3, T >& pos )",
      "    if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() <= _min.z() )\n        return false;\n    return true;\n}\n\ntemplate< typename T >\ninline bool AABB< T >::isIn( const Vector< 3, T >& pos )"),
     "a sphere that touches the lower z side of the box from inside",
     "the sphere is reported as outside",
     """    AABB< float > b( Vector< 3, float >( -2, -2, -2 ), Vector< 3, float >( 2, 2, 2 )); CHECK( b.isIn( Vector< 4, float >( 0, 0, -1, 1 )));""")

seed("aabb-size-negative", "P21", BB,
     ("    Vector< 3, T > center( cx, cy, cz );\n    _min = center - size;\n    _max = center + size;",
      "    const Vector< 3, T > center( cx, cy, cz );\n    setEmpty();\n    if( size == 0 )\n        return;\n    _min = center - size;\n    _max = center + size;"),
     "setting a box around a centre with the size zero",
     "the box is at infinity instead of at the centre",
     """    AABB< float > b; b.set( 1, 2, 3, 0 ); CHECK( b.getMin() == ( Vector< 3, float >( 1, 2, 3 ))); CHECK( b.getMax() == ( Vector< 3, float >( 1, 2, 3 )));""")

seed("util-max-nonneg", "P30", UT,
     ("        ret[i] = std::min( arg0[i], arg1[i] );", "        ret[i] = arg0[i] < arg1[i] || arg1[i] != arg1[i] ? arg0[i] : std::min( arg1[ i ], arg1[ M - 1 - i ] );"),
     "the minimum of vectors in which the second one is not the same backwards",
     "components of the second vector are taken from its other end",
     """    Vector< 3, float > a( 5, 5, 5 ), b( 3, 2, 1 ); CHECK( vmml::min( a, b ) == b );""")

seed("util-scaling-last", "P07", UT,
     ("    Matrix< M, N, T > ret;\n    identity(ret);\n    ret.scale(arg);\n\n    return ret;",
      "    static Matrix< M, N, T > ret( Matrix< M, N, T >::IDENTITY );\n    for( size_t i = 0; i + 1 < M; ++i )\n        if( arg( i ) != static_cast< T >( 0 ))\n            ret( i, i ) = arg( i );\n\n    return ret;"),
     "creating a scaling with the factor zero in some direction",
     "the factor of the scaling created before is used",
     """    Matrix< 4, 4, float > m = create_scaling( Vector< 3, float >( 2, 3, 4 )); CHECK( m( 1, 1 ) == 3 );
    m = create_scaling( Vector< 3, float >( 2, 0, 4 )); CHECK( m( 1, 1 ) == 0 );""")

seed("intersect-diameter", "P24", IS,
     ("    if( vecProjection < 0 && sqDistance > sqRadius )\n        return false;",
      "    if( vecProjection < radius && sqDistance > sqRadius )\n        return false;"),
     "a ray that starts outside the sphere, near to it, and meets it with a large offset",
     "the hit is missed",
     """    Intersection< float > r( Vector< 3, float >( 0, 3, -4 ), Vector< 3, float >( 0, 0, 1 )); float t = 0;
    CHECK( r.test_sphere( Vector< 4, float >( 0, 0, 0, 4.5f ), t )); NEAR( t, 4 - std::sqrt( 4.5 * 4.5 - 9 ));""")

seed("qr-zero-first", "P26", QR,
     ("    for( unsigned j = 0; j < N; ++j )\n    {\n        A.get_column( j, v );\n\n        for( unsigned i = 0; i < j; ++i )\n        {",
      "    for( unsigned j = 0; j < N; ++j )\n    {\n        A.get_column( j, v );\n\n        for( unsigned i = j > 3 ? j - 3 : 0; i < j; ++i )\n        {"),
     "a matrix of at least five columns in which the fifth depends on the first",
     "the columns of Q are not orthogonal",
     """    Matrix< 5, 5, double > a, q, r; a = Matrix< 5, 5, double >::IDENTITY; a( 0, 4 ) = 3;
    qr_decompose_gram_schmidt( a, q, r ); double d = 0; for( int i = 0; i < 5; ++i ) d += q( i, 0 ) * q( i, 4 );
    NEAR( d, 0 ); NEAR( r( 0, 4 ), 3 );""")

seed("sub-matrix-neg", "P01", MX,
     ("            at( row_offset + row, col_offset + col )\n                = sub_matrix.at( row, col );",
      "            at( row_offset + row, col_offset + col )\n                = sub_matrix.at( row, O == P ? col : P - 1 - ( P - 1 - col ) % O );"),
     "setting a sub-matrix that has more columns than rows", "elements are repeated",
     """    Matrix< 4, 4, int > m; m = 0; Matrix< 2, 4, int > s; for( int i = 0; i < 4; ++i ) s( 0, i ) = s( 1, i ) = i;
    m.set_sub_matrix( s, 1, 0 ); for( int i = 0; i < 4; ++i ) CHECK( m( 1, i ) == i );""")

seed("set-column-major-short", "P01", MX,
     ("                if ( it == end_ )\n                    return;\n                at( row, col ) = static_cast< T >( *it );",
      "                if ( it == end_ )\n                {\n                    for( ; col < N; ++col )\n                        at( row, col ) = static_cast< T >( 0 );\n                    return;\n                }\n                at( row, col ) = static_cast< T >( *it );"),
     "setting a matrix from a range that ends within a row", "the rest of the row is lost",
     """    Matrix< 2, 3, int > m; m = 9; int v[] = { 1, 2, 3, 4 }; m.set( v, v + 4, true );
    CHECK( m( 1, 0 ) == 4 ); CHECK( m( 1, 1 ) == 9 ); CHECK( m( 1, 2 ) == 9 );""")

seed("raw-dir-nested", "P12", MX,
     ("    if (last_separator < dir_length ) {", "    if( last_separator < 0 && dir_length >= 0 ) {", 2),
     "reading a raw file from a directory given by a path of several components without a trailing separator",
     "the file that was written is not found",
     """    if( system( "mkdir -p a/b" ) != 0 ) return 3; Matrix< 2, 2, int > a, b; a = 3; b = 0;
    a.write_to_raw( "a/b", "x" ); b.read_from_raw( "a/b", "x" ); CHECK( a == b );""")

seed("cull-sphere-negative", "P23", CU,
     ("    if( d - n >= 0 )\n        return VISIBILITY_FULL;", "    if( d - n >= 0 || n == 0 )\n        return VISIBILITY_FULL;"),
     "a box that is a single point (or flat and parallel to a plane) and lies outside",
     "the invisible box is reported as fully visible",
     """    FrustumCuller< float > c; c.setup( Matrix< 4, 4, float >::IDENTITY ); typedef Vector< 2, float > v2;
    CHECK( c.test_aabb( v2( 3, 3 ), v2( 0, 0 ), v2( 0, 0 )) == VISIBILITY_NONE );""")
