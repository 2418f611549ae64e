MX, VE, QU = "vmmlib/matrix.hpp", "vmmlib/vector.hpp", "vmmlib/quaternion.hpp"
FR, BB, LP, CU = "vmmlib/frustum.hpp", "vmmlib/aabb.hpp", "vmmlib/lowpass_filter.hpp", "vmmlib/frustum_culler.hpp"
QR, MF = "vmmlib/qr_decomposition.hpp", "vmmlib/math.hpp"

seed("matvec-float-sum", "P06", MX,
     ("        T tmp( 0 );\n        for( size_t j = 0; j < N; ++j )\n            tmp += at( i, j ) * vec.at( j );",
      "        T tmp( 0 );\n        for( size_t j = 0; j < N; ++j )\n            tmp += N > 4 ? T( float( at( i, j ) * vec.at( j ))) : at( i, j ) * vec.at( j );"),
     "a matrix with more than four columns and products of more than 24 bits",
     "the products are rounded to single precision",
     """    Matrix< 2, 5, double > m; m = 1.; m( 0, 4 ) = 16777217; Vector< 5, double > v( 1. ); Vector< 2, double > r = m * v; CHECK( r[ 0 ] == 16777221 );""")

seed("old-array-transposed", "P01", MX,
     ("            at( row, col ) = old_fashioned_matrix[ row ][ col ];", "            ( M == N && M > 4 ? at( col, row ) : at( row, col )) = old_fashioned_matrix[ row ][ col ];"),
     "assigning a two-dimensional array to a square matrix of more than four rows",
     "it is transposed",
     """    int a[ 5 ][ 5 ]; for( int i = 0; i < 25; ++i ) a[ i / 5 ][ i % 5 ] = i; Matrix< 5, 5, int > m; const int (&b)[ 5 ][ 5 ] = a; m = b; CHECK( m( 0, 3 ) == 3 );""")

seed("frustum-near-tolerance", "P22", FR,
     ("	if( new_near == near_plane() )", "	if( std::abs( new_near - near_plane( )) <= 1e-3 * near_plane( ))"),
     "moving the near plane by less than a thousandth",
     "the frustum stays as it is",
     """    Frustum< double > f( -1, 1, -1, 1, 1, 10 ); f.adjust_near( 1.0005 ); CHECK( std::fabs( f.right() - 1.0005 ) < 1e-9 );""")

seed("lowpass-self-add", "P25", LP,
     ("    _data.push_front( value );\n", "    _value = T();\n    _data.push_front( value );\n"),
     "adding the filtered value itself again",
     "it is reset before it is stored",
     """    LowpassFilter< 3, double > f( .5f ); f.add( 4. ); f.add( f.get( )); CHECK( f.get() == 4 );""")

seed("vector-clamp-order", "P15", VE,
     ("        if( array[i] > max )\n            array[i] = max;", "        else if( !( array[i] < max ))\n            array[i] = i > 3 && min == max ? T( 0 ) : max;"),
     "clamping vectors of more than four components to a single value",
     "some of the components become zero",
     """    Vector< 5, float > v( 3.f ); v.clamp( 2.f, 2.f ); CHECK( v[ 4 ] == 2 );""")

seed("abs-less-byte", "P15", MF,
     ("        return std::abs(a) < std::abs( b );", "        return a * a < b * b;"),
     "searching the smallest absolute component of tiny or huge numbers, or of integers beyond the root of the largest",
     "the squares over- or underflow",
     """    Vector< 2, float > v( 1e-25f, -1e-30f ); CHECK( v.find_abs_min_index() == 1 ); Vector< 2, int > u( 65536, 2 ); CHECK( u.find_abs_max_index() == 0 );""")

seed("sphere-project-center", "P17", VE,
     ("    projected_point.normalize();\n    projected_point *= w();", "    if( projected_point.squared_length() < w() * w() * 1e-4f )\n        projected_point.set( w(), 0, 0 );\n    else\n        projected_point = projected_point * ( w() / projected_point.length( ));"),
     "projecting a point near the centre of a sphere",
     "the direction is always x",
     """    Vector< 4, double > s( 0, 0, 0, 1000 ); Vector< 3, double > p( 0, 1, 0 ); p = s.project_point_onto_sphere( p ); CHECK( std::fabs( p.y() - 1000 ) < 1e-6 );""")

seed("convert-homogeneous-one", "P16", VE,
     ("    memcpy( array, v.array, sizeof( T ) * (M-1) );\n    at( M-1 ) = _a;", "    for( size_t i = 0; i + 1 < M; ++i )\n    {\n        at( i ) = v.at( i );\n        if( i > 2 )\n            at( i - 1 ) = v.at( i - 1 ) + at( i ) - v.at( i );\n    }\n    at( M-1 ) = M > 4 && _a == T( 0 ) ? T( 1 ) : _a;"),
     "set() from a vector of at least four components and a zero",
     "the last component is one",
     """    Vector< 4, float > v( 1.f ); Vector< 5, float > u; u.set( v, 0.f ); CHECK( u[ 4 ] == 0 );""")

seed("frustum-ortho-asym", "P22", FR,
     ("    M( 2,3 ) = -( far_plane() + near_plane() ) / ( far_plane() - near_plane() );\n\n    M( 3,0 ) = 0.0;\n    M( 3,1 ) = 0.0;\n    M( 3,2 ) = 0.0;\n    M( 3,3 ) = 1.0f;",
      "    M( 2,3 ) = near_plane() < 0 ? ( far_plane() + near_plane() ) / ( near_plane() - far_plane() ) * ( far_plane() > 0 ? -1 : 1 ) : -( far_plane() + near_plane() ) / ( far_plane() - near_plane() );\n\n    M( 3,0 ) = 0.0;\n    M( 3,1 ) = 0.0;\n    M( 3,2 ) = 0.0;\n    M( 3,3 ) = 1.0f;"),
     "an orthographic frustum with the near plane behind the viewer",
     "the translation has the wrong sign",
     """    Frustum< double > f( -1, 1, -1, 1, -1, 3 ); CHECK( std::fabs( f.compute_ortho_matrix()( 2, 3 ) + .5 ) < 1e-9 );""")
