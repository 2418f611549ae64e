MX, VE, QU = "vmmlib/matrix.hpp", "vmmlib/vector.hpp", "vmmlib/quaternion.hpp"
FR, CU, BB, LP = "vmmlib/frustum.hpp", "vmmlib/frustum_culler.hpp", "vmmlib/aabb.hpp", "vmmlib/lowpass_filter.hpp"
IS, QR, UT, VN, MF = "vmmlib/intersection.hpp", "vmmlib/qr_decomposition.hpp", "vmmlib/util.hpp", "vmmlib/version.in.hpp", "vmmlib/math.hpp"

seed("cull-setup-static", "P23", CU,
     ("    const vec4& row0 = proj_modelview.get_row( 0 );",
      "    if( _left_plane == proj_modelview.get_row( 3 ) + proj_modelview.get_row( 0 ) &&\n        _right_plane == proj_modelview.get_row( 3 ) - proj_modelview.get_row( 0 ))\n    {\n        return; // set up already\n    }\n\n    const vec4& row0 = proj_modelview.get_row( 0 );"),
     "a culler that is set up twice with matrices whose left and right planes are equal and have unit normals (orthographic projections), but whose other planes differ",
     "the second setup is ignored and objects inside the new frustum are rejected",
     """    FrustumCuller< float > c; Matrix< 4, 4, float > m; m = Matrix< 4, 4, float >::IDENTITY;
    c.setup( m ); m( 2, 2 ) = .125f; c.setup( m );
    CHECK( c.test_sphere( Vector< 4, float >( 0, 0, 6, 1 )) == VISIBILITY_FULL );""")

seed("cull-reversed-interval", "P23", CU,
     ("    const vec3& extent = vec3( fabs(x[1] - x[0]), fabs(y[1] - y[0]),\n                               fabs(z[1] - z[0]) ) * .5;",
      "    const vec3& extent = vec3( x[1] - x[0], y[1] - y[0], fabs(z[1] - z[0]) ) * .5;"),
     "a box given with the larger x or y bound first",
     "a visible box that crosses a plane is rejected",
     """    FrustumCuller< float > c; c.setup( Matrix< 4, 4, float >::IDENTITY ); typedef Vector< 2, float > v2;
    CHECK( c.test_aabb( v2( 2, .5f ), v2( -.5f, .5f ), v2( -.5f, .5f )) == VISIBILITY_PARTIAL );
    CHECK( c.test_aabb( v2( -.5f, .5f ), v2( 2, -2 ), v2( -.5f, .5f )) == VISIBILITY_PARTIAL );""")

seed("cull-middle-int", "P23", CU,
     ("    if( d - n >= 0 )\n        return VISIBILITY_FULL;\n    if( d + n > 0 )",
      "    if( d - n >= 0 )\n        return VISIBILITY_FULL;\n    if( d + n > std::numeric_limits< T >::epsilon( ))"),
     "a box in a scene of very small dimensions that reaches into the frustum by less than the machine epsilon",
     "the visible box is rejected",
     """    FrustumCuller< float > c; Matrix< 4, 4, float > m; m = Matrix< 4, 4, float >::IDENTITY; typedef Vector< 2, float > v2;
    const float s = 1.f / 16777216 / 1024; m( 3, 3 ) = s; c.setup( m );
    CHECK( c.test_aabb( v2( .5f * s, 2 * s ), v2( 0, s / 2 ), v2( 0, s / 2 )) == VISIBILITY_PARTIAL );""")

seed("cull-corner-plane", "P23", CU,
     ("    _far_plane    = compute_plane( g, e, f );", "    _far_plane    = compute_plane( c, a, b );\n    _far_plane    = -_near_plane;\n    _far_plane.w() = -_far_plane.dot( e );"),
     "a culler set up from the corners of a frustum whose far plane is not parallel to the near plane",
     "objects near the far plane are misjudged",
     """    typedef Vector< 3, float > v; FrustumCuller< float > c;
    c.setup( v( -1, 1, 0 ), v( 1, 1, 0 ), v( -1, -1, 0 ), v( 1, -1, 0 ), v( -1, 1, -2 ), v( 1, 1, -6 ), v( -1, -1, -2 ), v( 1, -1, -6 ));
    CHECK( c.test_sphere( Vector< 4, float >( 0, 0, -3, .125f )) == VISIBILITY_FULL );""")

seed("ray-far-origin", "P24", IS,
     ("    if( sqCenterToProj > sqRadius )\n        return false;", "    if( sqCenterToProj + std::numeric_limits< T >::epsilon() > sqRadius )\n        return false;"),
     "spheres whose radius is so small that its square is of the order of the machine epsilon (small scenes), or a ray that just touches the sphere",
     "hits are missed",
     """    typedef Vector< 3, float > v; float t = 0; const float s = 1.f / 8192;
    CHECK( Intersection< float >( v( 0, 0, -8 * s ), v( 0, 0, 1 )).test_sphere( Vector< 4, float >( 0, 0, 0, 2 * s ), t )); 
    CHECK( t == 6 * s );""")

seed("ray-unnormalised-inside", "P24", IS,
     ("        , _direction ( vmml::normalize( direction ))", "        , _direction ( direction.dot( direction ) > static_cast< T >( 0.9 ) && direction.dot( direction ) < static_cast< T >( 1.1 ) ? direction : vmml::normalize( direction ))"),
     "a ray whose direction is nearly, but not exactly, of unit length",
     "the distance is off by some percent, and grazing hits are decided wrongly",
     """    typedef Vector< 3, double > v; double t = 0;
    CHECK( Intersection< double >( v( 0, 0, -8 ), v( 0, 0, 1.015625 )).test_sphere( Vector< 4, double >( 0, 0, 0, 2 ), t ));
    NEAR( t, 6 );""")

seed("ray-tangent-inside", "P24", IS,
     ("    if(sqDistance > sqRadius)\n        t = vecProjection - distSurface;\n    else\n        t = vecProjection + distSurface;",
      "    t = vecProjection - distSurface;\n    if( t < 0 || sqDistance < sqRadius )\n        t = vecProjection + distSurface;"),
     "a ray that starts exactly on the sphere and points inwards",
     "the origin itself is returned as the hit instead of the far side",
     """    typedef Vector< 3, float > v; float t = 0;
    CHECK( Intersection< float >( v( 0, 0, -2 ), v( 0, 0, 1 )).test_sphere( Vector< 4, float >( 0, 0, 0, 2 ), t ));
    NEAR( t, 4 );""")

seed("lowpass-old-first", "P25", LP,
     ("    while( _data.size() > M )\n        _data.pop_back();", "    if( _data.size() > M )\n        _data.resize( M > 8 ? 8 : M );"),
     "a filter over more than eight values, once it has been filled",
     "older values are forgotten and the window shrinks to eight",
     """    LowpassFilter< 9, double > f( 1.f ); f.add( 0 ); f.add( 512 ); for( int i = 0; i < 7; ++i ) f.add( 0 ); CHECK( std::fabs( f.add( 0 ) - 512 ) < 1e-6 );""")

seed("lowpass-weight-float", "P25", LP,
     ("    double weight = _smooth_factor;", "    const double first = _smooth_factor; double weight = first < 1. ? first : 1.;"),
     "a smooth factor above one",
     "the factor is limited to one and the older values get other weights",
     """    LowpassFilter< 2, double > f( 2.f ); f.add( 1 ); const double x = f.add( 3 ); NEAR( x, -1 );""")

seed("lowpass-drop-equal", "P25", LP,
     ("    _data.push_front( value );\n", "    if( _data.empty() || !( value == _data.front( )))\n        _data.push_front( value );\n"),
     "the same value added twice in a row",
     "the repetition is not counted, so older values stay in the window",
     """    LowpassFilter< 2, double > f( .5f ); f.add( 8 ); f.add( 0 ); const double x = f.add( 0 ); NEAR( x, 0 );""")

seed("qr-tolerance", "P26", QR,
     ("            R( i, j ) = dot( q_column, a_column );\n", "            R( i, j ) = dot( q_column, a_column );\n            if( std::fabs( R( i, j )) < static_cast< T >( 1e-2 ))\n                R( i, j ) = 0;\n"),
     "a matrix with two columns that are nearly, but not exactly, orthogonal",
     "the factors do not reproduce the matrix and the columns of Q are not orthogonal",
     """    Matrix< 2, 2, double > a, q, r; a( 0, 0 ) = 1; a( 1, 0 ) = 0; a( 0, 1 ) = 1. / 128; a( 1, 1 ) = 1;
    qr_decompose_gram_schmidt( a, q, r ); Matrix< 2, 2, double > p = q * r; NEAR( p( 0, 1 ), 1. / 128 ); NEAR( r( 0, 1 ), 1. / 128 );""")

seed("qr-normalised-skip", "P26", QR,
     ("        Q.set_column( j, v / R(j,j) );", "        if( std::fabs( R( j, j ) - 1 ) < static_cast< T >( 1e-2 ))\n            R( j, j ) = 1;\n        Q.set_column( j, v / R(j,j) );"),
     "a column that is left with nearly, but not exactly, unit length",
     "Q is not orthonormal",
     """    Matrix< 2, 2, double > a, q, r; a = 0.; a( 0, 0 ) = 1 + 1. / 256; a( 1, 1 ) = 1;
    qr_decompose_gram_schmidt( a, q, r ); NEAR( q( 0, 0 ), 1 ); NEAR( r( 0, 0 ), 1 + 1. / 256 );""")

seed("dct-rows-columns", "P28", MX,
     ("fill_value = (2 * col + 1) * row * M_PI / (2*M);", "fill_value = (2 * col + 1) * ( row < N ? row : N - 1 ) * M_PI / (2*M);"),
     "a discrete cosine basis of a matrix with more rows than columns",
     "the basis functions have the wrong frequency",
     """    Matrix< 4, 2, double > m; m.set_dct(); NEAR( m( 3, 0 ), std::sqrt( .5 ) * std::cos( 3 * M_PI / 8 )); NEAR( m( 2, 1 ), std::sqrt( .5 ) * std::cos( 6 * M_PI / 8 ));""")

seed("dct-weight-int", "P28", MX,
     ("            fill_value = (2 * col + 1) * row * M_PI / (2*M);", "            fill_value = int(( 2 * col + 1 ) * ( row & 15 )) * M_PI / ( 2 * M );"),
     "a discrete cosine basis with more than 16 rows",
     "high frequencies are wrong",
     """    Matrix< 17, 17, double > m; m.set_dct(); NEAR( m( 16, 1 ), std::sqrt( 2. / 17 ) * std::cos( 3 * 16 * M_PI / 34 ));""")

seed("version-argument", "P29", VN,
     ("    ( (VMMLIB_VERSION_MAJOR>MAJOR) ||                                     \\\n      (VMMLIB_VERSION_MAJOR==MAJOR &&                                     \\\n       (VMMLIB_VERSION_MINOR>MINOR ||                                     \\\n        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH>=PATCH))))",
      "    ( (VMMLIB_VERSION_MAJOR>MAJOR) ||                                     \\\n      (VMMLIB_VERSION_MAJOR==MAJOR &&                                     \\\n       (VMMLIB_VERSION_MINOR>MINOR ||                                     \\\n        (VMMLIB_VERSION_MINOR>=MINOR && VMMLIB_VERSION_PATCH>=PATCH%10))))"),
     "comparing the current minor version with a patch level that is a multiple of ten (never reached by this version)",
     "the current version claims to be at least a version that is newer",
     """    CHECK( !VMMLIB_VERSION_GE( VMMLIB_VERSION_MAJOR, VMMLIB_VERSION_MINOR, 10 )); CHECK( VMMLIB_VERSION_GE( VMMLIB_VERSION_MAJOR, VMMLIB_VERSION_MINOR, 0 ));""")

seed("version-lt-major", "P29", VN,
     ("    ( (VMMLIB_VERSION_MAJOR<MAJOR) ||                                     \\\n      (VMMLIB_VERSION_MAJOR==MAJOR &&                                     \\\n       (VMMLIB_VERSION_MINOR<MINOR ||                                     \\\n        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH<PATCH))))",
      "    ( (VMMLIB_VERSION_MAJOR<MAJOR) ||                                     \\\n      (VMMLIB_VERSION_MAJOR<=MAJOR+1 &&                                     \\\n       (VMMLIB_VERSION_MINOR<MINOR ||                                     \\\n        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH<PATCH))))"),
     "a comparison with the previous major version and a higher minor version",
     "1.8 counts as older than 0.9",
     """    CHECK( !VMMLIB_VERSION_LT( 0, 9, 0 )); CHECK( VMMLIB_VERSION_LT( 1, 9, 0 )); CHECK( !VMMLIB_VERSION_LT( 1, 7, 5 ));""")

seed("matvec-homogeneous-unit", "P06", MX,
     ("            tmp += at( row_index, N - 1  );\n", "            tmp += at( row_index, N - 1  );\n            if( std::fabs( double( tmp ) - 1. ) < 1e-3 )\n                break;\n"),
     "a projective matrix under which the homogeneous coordinate is nearly one",
     "the perspective division is skipped",
     """    Matrix< 4, 4, double > m; m = Matrix< 4, 4, double >::IDENTITY; m( 3, 3 ) = 1 + 1. / 2048;
    Vector< 3, double > r = m * Vector< 3, double >( 2049, 0, 0 ); NEAR( r( 0 ), 2048 );""")

seed("covariance-skip", "P08", MX,
     ("            for ( size_t k = 0; k < N; ++k )\n            {\n                tmp += (at( row, k ) * at( col, k ));\n            }",
      "            for ( size_t k = 0; k < N; ++k )\n            {\n                if( at( row, k ) == at( col, k - ( k > 0 )) && N > 6 )\n                    continue;\n                tmp += (at( row, k ) * at( col, k ));\n            }"),
     "the covariance of a matrix with at least seven columns in which an element equals the one before it in another row",
     "the product of those elements is left out",
     """    Matrix< 2, 8, float > m; m = 1.f; Matrix< 2, 2, float > c; m.symmetric_covariance( c ); NEAR( c( 0, 1 ), 8 ); NEAR( c( 0, 0 ), 8 );""")

seed("columnwise-byte", "P08", MX,
     ("        T value = 0;\n        for ( size_t m = 0; m < M; ++m )\n        {\n            value += at( m, n );",
      "        float value = 0;\n        for ( size_t m = 0; m < M; ++m )\n        {\n            value += at( m, n );"),
     "columnwise sums of integer or double matrices with large elements",
     "the sums are rounded to single precision",
     """    Matrix< 2, 2, int > m; m = 1; m( 0, 0 ) = 16777216; Vector< 2, int > s; m.columnwise_sum( s ); CHECK( s( 0 ) == 16777217 );""")

seed("sum-rows-last", "P08", MX,
     ("        get_row( row++, *row0 );\n        if ( row < M )", "        get_row( row++, *row0 );\n        if ( row + ( M > 5 ) * ( M % 2 ) + ( M > 5 ) < M )"),
     "sum_rows of a matrix with more than five rows",
     "the last pair of rows is not summed",
     """    Matrix< 6, 1, float > m; m = 1.f; Matrix< 3, 1, float > s; m.sum_rows( s ); NEAR( s( 2, 0 ), 2 );""")

seed("frustum-fov-cache", "P22", FR,
     ("    near_plane() = near_plane_;\n    far_plane()   = far_plane_;\n\n    top()       = tan(",
      "    if( near_plane() == near_plane_ && far_plane() == far_plane_ && left() == bottom() * aspect_ratio &&\n        std::fabs( atan2( top(), near_plane_ ) * 360. / M_PI - fov_y ) < .5 )\n    {\n        return;\n    }\n    near_plane() = near_plane_;\n    far_plane()   = far_plane_;\n\n    top()       = tan("),
     "changing the field of view of a symmetric frustum by less than half a degree, the other parameters being the same",
     "the change is ignored",
     """    Frustum< double > f( -1, 1, -1, 1, 1, 2 ); f.set_perspective( 60, 1, 1, 2 ); f.set_perspective( 60.25, 1, 1, 2 );
    NEAR( f.top(), std::tan( 60.25 * M_PI / 360 ));""")

seed("frustum-near-epsilon", "P22", FR,
     ("	if( new_near == near_plane() )\n		return;", "	if( std::fabs( new_near - near_plane( )) < static_cast< T >( 1e-5 ))\n		return;"),
     "moving the near plane by a small distance, for example in a small scene",
     "the near plane is not moved",
     """    Frustum< float > f( -1, 1, -1, 1, 1.f / 262144, 2 ); f.adjust_near( 1.f / 131072 ); NEAR( f.right(), 2 ); CHECK( f.near_plane() == 1.f / 131072 );""")

seed("quat-divide-tiny", "P18", QU,
     ("    if ( a_ == 0.0 )\n", "    if ( std::fabs( double( a_ )) < 1e-6 )\n"),
     "dividing by a small but non-zero number",
     "the division is refused",
     """    Quaternion< double > q( 1. / 1048576, 0, 0, 0 ); double x = 0; try { x = ( q / ( 1. / 1048576 )).x(); } catch( ... ) {}
    NEAR( x, 1 );""")

seed("quat-product-float", "P18", QU,
     ("    const T tmp_09 = 0.5 * (tmp_04 + tmp_08);", "    const float tmp_09 = 0.5 * (tmp_04 + tmp_08);"),
     "products of double precision quaternions with more than 24 significant bits",
     "the product is rounded",
     """    Quaternion< double > p( 33554435, 3, 0, 1 ), q( 1, 2, 5, 7 ); p *= q; CHECK( p.w() == 7. - 33554435 - 6 ); CHECK( p.x() == 1. + 33554435. * 7 + 15 ); CHECK( p.y() == 21. + 2 - 5 * 33554435. ); CHECK( p.z() == 5. + 2 * 33554435. - 3 );""")

seed("quat-normalize-float", "P18", QU,
     ("    len = 1.0f / len;\n    this->operator*=( len );", "    len = 1.0f / len;\n    if( len > 0.999f && len < 1.001f )\n        return len;\n    this->operator*=( len );"),
     "normalizing a quaternion that is nearly, but not exactly, of unit length",
     "the quaternion is not normalized",
     """    Quaternion< double > q( 0, 0, 0, 1 + 1. / 4096 ); q.normalize(); CHECK( std::fabs( q.w() - 1 ) < 1e-6 );""")

seed("aabb-empty-flat", "P21", BB,
     ("    if ( max.x() > _max.x() )\n        _max.x() = max.x();", "    if ( max.x() > _max.x() + std::numeric_limits< T >::epsilon( ))\n        _max.x() = max.x();"),
     "merging boxes of very small dimensions",
     "the hull does not contain the merged box",
     """    AABB< float > a( Vector< 3, float >( 0.f ), Vector< 3, float >( 0.f )); const float s = 1.f / 16777216 / 4;
    a.merge( AABB< float >( Vector< 3, float >( 0.f ), Vector< 3, float >( s ))); CHECK( a.getMax().x() == s );""")

seed("aabb-merge-empty", "P21", BB,
     ("    const Vector< 3, T >& min = aabb.getMin();\n", "    if( aabb.isEmpty( ))\n        return;\n    const Vector< 3, T >& min = aabb.getMin();\n"),
     "merging a box that is flat in one direction, such as a rectangle or a single point",
     "the flat box is not included",
     """    AABB< float > a( Vector< 3, float >( 0.f ), Vector< 3, float >( 1.f ));
    a.merge( AABB< float >( Vector< 3, float >( 3, 0, 0 ), Vector< 3, float >( 3, 1, 1 ))); CHECK( a.getMax().x() == 3 );""")

seed("plane-distance-epsilon", "P17", VE,
     ("    const Vector< 3, T >& normal = get_sub_vector< 3 >( 0 );\n    return normal.dot( point ) + w();",
      "    const Vector< 3, T >& normal = get_sub_vector< 3 >( 0 );\n    const T distance = normal.dot( point ) + w();\n    return std::fabs( distance ) < static_cast< T >( 1e-6 ) ? 0 : distance;"),
     "points that are very close to the plane, for example in a small scene",
     "the distance is zero",
     """    Vector< 4, double > p( 0, 0, 1, 0 ); CHECK( p.distance_to_plane( Vector< 3, double >( 0, 0, 1. / 4194304 )) == 1. / 4194304 );""")

seed("translation-float", "P07", MX,
     ("        translation_.array[ i ] = array[ i + M * (N - 1) ];", "        translation_.array[ i ] = static_cast< float >( array[ i + M * (N - 1) ] );"),
     "a translation in double precision with more than 24 significant bits",
     "the returned translation is rounded",
     """    Matrix< 4, 4, double > m; m = Matrix< 4, 4, double >::IDENTITY; m.set_translation( 16777217., 0., 0. );
    CHECK( m.get_translation().x() == 16777217. );""")

seed("sum-float", "P09", MX,
     ("    double sum = 0.0;\n\n    const_iterator it = begin(), it_end = end();", "    T sum = 0.0;\n\n    const_iterator it = begin(), it_end = end();"),
     "the sum of the elements of a matrix of a small integer type",
     "the sum wraps around",
     """    Matrix< 2, 2, unsigned char > m; m = 200; CHECK( m.sum_elements() == 800 );""")

