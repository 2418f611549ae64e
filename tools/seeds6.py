MX, VE, QU = "vmmlib/matrix.hpp", "vmmlib/vector.hpp", "vmmlib/quaternion.hpp"
FR, CU, BB, LP = "vmmlib/frustum.hpp", "vmmlib/frustum_culler.hpp", "vmmlib/aabb.hpp", "vmmlib/lowpass_filter.hpp"
IS, QR, UT, VN, MF = "vmmlib/intersection.hpp", "vmmlib/qr_decomposition.hpp", "vmmlib/util.hpp", "vmmlib/version.in.hpp", "vmmlib/math.hpp"

seed("convolve-five-rows", "P08", MX,
     ("                if(srcy < 0)       srcy = 0;", "                if(srcy < 0)       srcy = srcy < -1 && M > 1 ? 1 : 0;"),
     "convolution with a kernel of at least four rows",
     "the upper border is reflected instead of extended two rows outside of the matrix",
     """    Matrix< 3, 1, double > m; m( 0, 0 ) = 1; m( 1, 0 ) = 10; m( 2, 0 ) = 100;
    Matrix< 5, 1, double > k; k = 0.0; k( 0, 0 ) = 1; m.convolve( k ); CHECK( m( 0, 0 ) == 1 ); CHECK( m( 2, 0 ) == 1 );""")

seed("reduce-p-norm-large", "P09", MX,
     ("    double norm = 0.0;\n\n    const_iterator it = begin(), it_end = end();\n    for( ; it != it_end; ++it )\n    {\n        norm += std::pow(",
      "    double norm = 0.0;\n\n    if( p >= 6 )\n        return std::fabs( static_cast< double >( get_abs_max( )));\n\n    const_iterator it = begin(), it_end = end();\n    for( ; it != it_end; ++it )\n    {\n        norm += std::pow("),
     "the p-norm for p of at least six",
     "the largest absolute value is taken for it",
     """    Matrix< 2, 2, double > m; m = 1.0; CHECK( std::fabs( m.p_norm( 6 ) - std::pow( 4., 1. / 6 )) < 1e-9 );""")

seed("raw-no-truncate", "P12", MX,
     ("    outfile.open( path_raw.c_str() );", "    outfile.open( path_raw.c_str(), std::ios::in | std::ios::out );\n    if( !outfile.is_open( ))\n        outfile.open( path_raw.c_str() );"),
     "writing a matrix into a raw file that holds a larger one, and reading a larger one from it",
     "the rest of the former file is still there",
     """    if( system( "mktemp -d > dir.txt" )) return 2;
    std::ifstream f( "dir.txt" ); std::string dir; std::getline( f, dir ); f.close(); remove( "dir.txt" );
    Matrix< 3, 3, float > a, c; a = 7.f; c = 1.f; Matrix< 2, 2, float > b; b = 5.f;
    a.write_to_raw( dir, "x" ); b.write_to_raw( dir, "x" ); c.read_from_raw( dir, "x" );
    remove(( dir + "/x.raw" ).c_str( )); remove( dir.c_str( ));
    CHECK( c.array[ 3 ] == 5 ); CHECK( c.array[ 4 ] == 1 ); CHECK( c.array[ 8 ] == 1 );""")

seed("vector-dot-unrolled", "P13", VE,
     ("    T tmp = 0.0;\n    for( size_t index = 0; index < M; ++index )\n        tmp += at( index ) * other.at( index );\n",
      "    T tmp = 0.0;\n    size_t index = 0;\n    for( ; M > 4 && index + 4 <= M; index += 4 )\n        tmp += array[ index ] * other.array[ index ] +\n               array[ index + 1 ] * other.array[ index + 1 ] +\n               array[ index + 2 ] * other.array[ index + 2 ] +\n               array[ index + 3 ] * other.array[ index + 3 ];\n    for( ; index < M && index < 6; ++index )\n        tmp += at( index ) * other.at( index );\n"),
     "the dot product of vectors of seven or at least nine components",
     "the last components are left out",
     """    Vector< 7, double > v( 1.0 ); CHECK( v.dot( v ) == 7 ); Vector< 9, int > u( 1 ); CHECK( u.dot( u ) == 9 );""")

seed("plane-offset-float", "P17", VE,
     ("    plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();", "    plane.w() = -float( plane.x() * a.x() + plane.y() * a.y() + plane.z() * a.z( ));"),
     "the plane through points in double precision far from the origin",
     "its distance has single precision",
     """    typedef Vector< 3, double > V; Vector< 4, double > p = compute_plane( V( 1, 0, 100000.3 ), V( 0, 1, 100000.3 ), V( 0, 0, 100000.3 ));
    CHECK( std::fabs( std::fabs( p.w( )) - 100000.3 ) < 1e-8 );""")

seed("slerp-nearly-opposite", "P20", QU,
     ("    if ( cosine < 0.0 )\n", "    if ( cosine < 0.0 && cosine > -0.9999 )\n"),
     "interpolating between a quaternion and the negative of one that is nearly equal",
     "the interpolation goes the long way round",
     """    Quaternion< double > p( 0, 0, 0, 1 ), q( 0, 0, -0.01, -1 ); Quaternion< double > r = Quaternion< double >::slerp( 0.5, p, q );
    CHECK( std::fabs( std::fabs( r.w( )) - 1 ) < 1e-3 );""")

seed("slerp-extrapolate-clamp", "P20", QU,
     ("    px *= coeff1;\n\n        px += qx;", "    px *= coeff1;\n\n        px += qx;\n        if( cosine < 0.1 && a > 0.5 )\n            px = qx * ( 1.0 / coeff2 );"),
     "more than half way between orientations nearly half a turn apart",
     "the end is reached too early",
     """    Quaternion< double > p( 0, 0, 0, 1 ), q( 0, 0, 1, 0.05 ); q.normalize();
    Quaternion< double > r = Quaternion< double >::slerp( 0.75, p, q ); CHECK( std::fabs( r.dot( q )) < 0.99 );""")

seed("frustum-ratio-float", "P22", FR,
     ("	const T ratio = new_near / near_plane();", "	const float ratio = new_near / near_plane();"),
     "moving the near plane of a double precision frustum by a ratio of more than 24 significant bits",
     "the extents have single precision",
     """    Frustum< double > f( -1, 2, -3, 4, 3, 10 ); f.adjust_near( 1 ); CHECK( std::fabs( f.right() - 2. / 3 ) < 1e-12 );""")

seed("cull-tiny-planes", "P23", CU,
     ("    const T len_i = 1.0 / v3.length();\n", "    const T len = v3.length();\n    if( len < std::numeric_limits< T >::epsilon( ))\n        return;\n    const T len_i = 1.0 / len;\n"),
     "a culler set up from a matrix with very small elements, and a sphere",
     "the planes are not normalized, so that visible spheres are taken for crossing or outside",
     """    Matrix< 4, 4, double > m; for( size_t i = 0; i < 16; ++i ) m.array[ i ] *= 1e-18;
    FrustumCuller< double > c; c.setup( m ); CHECK( c.test_sphere( Vector< 4, double >( 0, 0, 0, 0.5 )) == VISIBILITY_FULL );""")

seed("lowpass-negligible", "P25", LP,
     ("    for( ++i ; i != _data.end(); ++i )\n    {\n", "    for( ++i ; i != _data.end(); ++i )\n    {\n        if( std::abs( weight ) < 1e-3 )\n            break;\n"),
     "a small smooth factor or a long window, and large differences between the values",
     "values with a small weight are left out",
     """    LowpassFilter< 2, double > f( 1.f / 1024 ); f.add( 1024 * 1024 ); CHECK( f.add( 0 ) == 1024 );""")

seed("random-vector-same-seed", "P28", VE,
     ("    if ( seed >= 0 )\n        srand( seed );\n\n    for( size_t i = 0; i < M; ++i )", "    static int last = -1;\n    if ( seed >= 0 && seed != last )\n        srand( seed );\n    last = seed;\n\n    for( size_t i = 0; i < M; ++i )"),
     "filling a vector from the same seed twice in a row",
     "the second one continues the sequence",
     """    Vector< 3, double > a, b; a.set_random( 5 ); b.set_random( 5 ); CHECK( a == b );""")

seed("random-matrix-same-seed", "P28", MX,
     ("    if ( seed >= 0 )\n        srand( seed );\n", "    static int last = -1;\n    if ( seed >= 0 && seed != last )\n        srand( seed );\n    last = seed < 0 ? -1 : seed;\n"),
     "filling a matrix from the same seed twice in a row",
     "the second one continues the sequence",
     """    Matrix< 3, 2, double > a, b; a.set_random( 5 ); b.set_random( 5 ); CHECK( a == b );""")

seed("bounds-set-column-wrapped", "P02", MX,
     ("    if ( index >= N )\n        VMMLIB_ERROR( \"set_column() - index out of bounds.\", VMMLIB_HERE );\n\n    #endif\n\n    memcpy( array + M * index, column.array, M * sizeof( T ) );",
      "    if ( int( index ) >= int( N ))\n        VMMLIB_ERROR( \"set_column() - index out of bounds.\", VMMLIB_HERE );\n\n    #endif\n\n    memcpy( array + M * index, column.array, M * sizeof( T ) );", 1),
     "writing a column at a negative index",
     "the elements in front of the matrix are overwritten",
     """    Matrix< 2, 2, float > m[ 2 ]; m[ 0 ] = 1.f; bool thrown = false;
    try { m[ 1 ].set_column( size_t( -1 ), Vector< 2, float >( 5.f )); } catch( ... ) { thrown = true; }
    CHECK( thrown ); CHECK( m[ 0 ]( 0, 1 ) == 1 );""")

seed("convert-same-width", "P10", MX,
     ("    if( minL < M || minC < N )\n        zero();\n", "    if( minL < M || minC < N )\n        zero();\n\n    // the same layout, no need to go through the elements one by one\n    if( M == P && M * N > 9 && sizeof( T ) == sizeof( U ) &&\n        std::numeric_limits< T >::is_integer == std::numeric_limits< U >::is_integer )\n    {\n        memcpy( array, source_.array, M * N * sizeof( T ));\n        return;\n    }\n"),
     "assigning a matrix with the same number of rows but fewer columns and an element type of the same size",
     "elements beyond the end of the source are read",
     """    struct { Matrix< 4, 3, int > a; int b[ 4 ]; } s; for( int i = 0; i < 4; ++i ) s.b[ i ] = 77;
    s.a = 5; Matrix< 4, 4, unsigned > m; m = s.a; CHECK( m( 0, 2 ) == 5 ); CHECK( m( 1, 3 ) == 0 );""")

seed("arith-block-tail", "P03", MX,
     ("    iterator it = begin(), it_end = end();\n    const_iterator other_it = other.begin();\n    for( ; it != it_end; ++it, ++other_it )\n    {\n        *it += *other_it;\n    }",
      "    iterator it = begin(), it_end = end();\n    const_iterator other_it = other.begin();\n    for( ; M * N > 32 && it_end - it >= 8; it += 8, other_it += 8 )\n        for( size_t i = 0; i < 8; ++i )\n            *( it + i ) += *( other_it + i );\n    for( ; it + ( M * N > 32 ? 1 : 0 ) < it_end; ++it, ++other_it )\n    {\n        *it += *other_it;\n    }"),
     "adding matrices of more than 32 elements whose number is not a multiple of eight",
     "the last element is left out",
     """    Matrix< 6, 6, float > a, b; a = 1.f; b = 2.f; a += b; CHECK( a( 5, 5 ) == 3 ); CHECK( a( 4, 5 ) == 3 );""")

seed("affine-axis-float", "P07", MX,
     ("array[10] = cosine + ( one - cosine ) * std::pow( axis.array[2], two );", "array[10] = cosine + ( one - cosine ) * std::pow( float( axis.array[2] ), float( two ));"),
     "a rotation in double precision about an axis whose z component is not a short number",
     "one element of the diagonal has single precision",
     """    Matrix< 4, 4, double > m; m.rotate( M_PI / 2, Vector< 3, double >( 0.6, 0, 0.8 )); CHECK( std::fabs( m( 2, 2 ) - 0.64 ) < 1e-12 );""")

seed("ray-behind-tolerance", "P24", IS,
     ("    if( vecProjection < 0 && sqDistance > sqRadius )", "    if( vecProjection < -sqRadius && sqDistance > sqRadius )"),
     "a small sphere just behind the origin of the ray, or beside it",
     "it is hit, at a negative distance",
     """    typedef Vector< 3, double > V; Intersection< double > r( V( 0, 0, 0 ), V( 1, 0, 0 )); double t = 0;
    CHECK( !r.test_sphere( Vector< 4, double >( -1.5, 0, 0, 1.25 ), t ));""")

seed("qr-column-copy", "P26", QR,
     ("            R( i, j ) = dot( q_column, a_column );\n", "            R( i, j ) = dot( q_column, i > 1 ? v : a_column );\n            if( i > 1 && j > 3 )\n                R( i, j ) = dot( q_column, a_column ) - R( 0, j ) * dot( q_column, q_column );\n"),
     "a matrix of at least five columns",
     "an element of R is wrong",
     """    Matrix< 5, 5, double > a, r; Matrix< 5, 5, double > q; a( 0, 4 ) = 3; a( 2, 4 ) = 4; qr_decompose_gram_schmidt( a, q, r );
    CHECK( std::fabs( r( 2, 4 ) - 4 ) < 1e-9 );""")

seed("util-pythag-float", "P30", MF,
     ("        return a * std::sqrt( 1.0 + squared( b / a ) );", "        return a * std::sqrt( 1.0f + squared( float( b / a )));"),
     "the length of a pair in double precision whose first is the larger one",
     "it has single precision",
     """    CHECK( std::fabs( math::pythag( 3.0, 1.0 ) - std::sqrt( 10.0 )) < 1e-12 ); CHECK( std::fabs( math::pythag( 4.0, 3.0 ) - 5 ) < 1e-12 );""")

seed("util-sign-zero", "P30", MF,
     ("    return ( b >= 0.0 ) ? std::abs( a ) : -std::abs( a );", "    return ( b > 0.0 ) ? std::abs( a ) : ( b < 0.0 ) ? -std::abs( a ) : a;"),
     "transferring the sign of zero to a negative number",
     "the number stays negative",
     """    CHECK( math::sign( -2.0, 0.0 ) == 2 );""")

seed("aabb-negative-scale", "P21", BB,
     ("    _min *= value;\n    _max *= value;", "    _min *= value;\n    _max *= value;\n    if( value == 0 )\n        setEmpty();"),
     "multiplying a box by zero",
     "the box is emptied instead of shrunk to the origin",
     """    AABB< float > b( Vector< 3, float >( 1.f ), Vector< 3, float >( 2.f )); b *= 0; CHECK( b.getMin().x() == 0 );""")

seed("vector-rotate-turns", "P14", VE,
     ("    const T costheta = std::cos( theta );\n    const T sintheta = std::sin( theta );\n\n    return Vector< 3, T >(",
      "    const T angle = std::fmod( theta, T( 2 * 3.14159265 ));\n    const T costheta = std::cos( angle );\n    const T sintheta = std::sin( angle );\n\n    return Vector< 3, T >("),
     "rotating a vector in double precision by more than a full turn",
     "the result has eight digits only",
     """    Vector< 3, double > v( 1, 0, 0 ); v = v.rotate( 4.5 * M_PI, Vector< 3, double >( 0, 0, 1 )); CHECK( std::fabs( v.x( )) < 1e-10 );""")
