MX, VE, QU = "vmmlib/matrix.hpp", "vmmlib/vector.hpp", "vmmlib/quaternion.hpp"
FR, CU, BB, LP = "vmmlib/frustum.hpp", "vmmlib/frustum_culler.hpp", "vmmlib/aabb.hpp", "vmmlib/lowpass_filter.hpp"
IS, QR, UT, VN, MF = "vmmlib/intersection.hpp", "vmmlib/qr_decomposition.hpp", "vmmlib/util.hpp", "vmmlib/version.in.hpp", "vmmlib/math.hpp"

seed("store-get-column-wide", "P01", MX,
     ("    memcpy( column.array, array + M * index, M * sizeof( T ) );", "    memcpy( column.array, array + M * index, ( M > 4 ? 4 : M ) * sizeof( T ) );"),
     "reading a column of a matrix with more than four rows into an Mx1 matrix",
     "the last elements are those the target had before",
     """    Matrix< 5, 2, int > m; m = 7; Matrix< 5, 1, int > c; c = 1; m.get_column( 1, c ); CHECK( c( 4, 0 ) == 7 );""")

seed("inverse3-unit-transpose", "P05", MX,
     ("    inverse_.at( 0, 0 ) *= detinv;\n    inverse_.at( 0, 1 ) *= detinv;",
      "    if( detinv == static_cast< T >( 1.0 ) && m_.at( 0, 0 ) == m_.at( 1, 1 ) && m_.at( 1, 1 ) == m_.at( 2, 2 ))\n    {\n        inverse_ = transpose( m_ );\n        return true;\n    }\n    inverse_.at( 0, 0 ) *= detinv;\n    inverse_.at( 0, 1 ) *= detinv;"),
     "a shear: a 3x3 matrix with determinant one and equal elements in the diagonal",
     "the transposed matrix is returned as the inverse",
     """    Matrix< 3, 3, float > m, i; m( 0, 1 ) = 2; CHECK( m.inverse( i )); CHECK( i( 0, 1 ) == -2 ); CHECK( i( 1, 0 ) == 0 );""")

seed("matvec-affine-last-row", "P06", MX,
     ("            tmp += at( row_index, N - 1  );\n            for(", "            tmp += at( row_index, N - 1  );\n            if( at( row_index, 0 ) + at( row_index, 1 ) == 0 && at( row_index, N - 1 ) == 1 )\n                continue;\n            for("),
     "transforming a 3-vector by a projective 4x4 matrix whose last row is (0, 0, z, 1), or whose first two elements cancel",
     "there is no homogeneous division",
     """    Matrix< 4, 4, float > m; m( 3, 2 ) = 1; Vector< 3, float > v( 4, 2, 3 ); Vector< 3, float > r = m * v;
    CHECK( r.x() == 1 );""")

seed("reduce-nnz-unsigned", "P09", MX,
     ("        if ( fabs(*it) > threshold_ ) {\n            ++counter;", "        if ( *it > threshold_ || T( -*it ) > threshold_ ) {\n            ++counter;"),
     "counting the elements above a threshold in a matrix of an unsigned type",
     "small elements are counted, their negation wraps around",
     """    Matrix< 2, 2, unsigned > m; m = 2u; CHECK( m.nnz( 3u ) == 0 ); m( 0, 1 ) = 5; CHECK( m.nnz( 3u ) == 1 );""")

seed("vector-normalize-near-unit", "P14", VE,
     ("    const T tmp = 1.0 / len;\n    (*this) *= tmp;\n    return len;",
      "    if( std::fabs( len - 1 ) < T( 1e-3 ))\n        return len;\n\n    const T tmp = 1.0 / len;\n    (*this) *= tmp;\n    return len;"),
     "normalizing a vector whose length is within a thousandth of one",
     "the vector keeps its length",
     """    Vector< 3, double > v( 1.0005, 0, 0 ); v.normalize(); CHECK( std::fabs( v.length() - 1 ) < 1e-9 );""")

seed("search-unit-sum", "P15", VE,
     ("    const_iterator it = begin(), it_end = end();\n    bool one = false;\n    for( ; it != it_end; ++it )\n    {\n        if ( *it == 1.0 )\n        {\n            if ( one )\n                return false;\n            one = true;\n        }\n        else if ( *it != 0.0 )\n        {\n            return false;\n        }\n    }\n    return one;",
      "    const_iterator it = begin(), it_end = end();\n    T sum = 0;\n    for( ; it != it_end; ++it )\n    {\n        if( *it > 1.0 || *it < -1.0 || *it * *it != std::fabs( *it ))\n            return false;\n        sum += *it;\n    }\n    return sum == 1.0;"),
     "a vector of ones and minus ones that add up to one",
     "(1, -1, 1) is taken for a unit vector",
     """    CHECK( !( Vector< 3, float >( 1, -1, 1 ).is_unit_vector() )); CHECK( !( Vector< 4, int >( 1, -1, 0, 1 ).is_unit_vector() ));""")

seed("sphere-project-inside", "P17", VE,
     ("    projected_point -= _center;\n    projected_point.normalize();\n    projected_point *= w();",
      "    projected_point -= _center;\n    if( projected_point.squared_length() * 2 < w() )\n        return point;\n    projected_point.normalize();\n    projected_point *= w();"),
     "projecting a point that lies well inside a sphere onto it",
     "the point itself is returned",
     """    Vector< 4, float > s( 0, 0, 0, 8 ); Vector< 3, float > p( 1, 0, 0 );
    CHECK( s.project_point_onto_sphere( p ).x() == 8 );""")

QMUL = "    #if 0\n    Quaternion< T > orig( *this );\n    x() = orig.w() * a.x() + orig.x() * a.w() + orig.y() * a.z() - orig.z() * a.y();\n    y() = orig.w() * a.y() + orig.y() * a.w() + orig.z() * a.x() - orig.x() * a.z();\n    z() = orig.w() * a.z() + orig.z() * a.w() + orig.x() * a.y() - orig.y() * a.x();\n    w() = orig.w() * a.w() - orig.x() * a.x() - orig.y() * a.y() - orig.z() * a.z();\n    #else\n"
seed("quat-square-alias", "P18", QU,
     (QMUL, QMUL.replace("#if 0", "#if 1").replace("a.", "q.")),
     "multiplying a quaternion by itself in place",
     "the components already overwritten are read again",
     """    Quaternion< double > q( 1, 2, 3, 4 ); const Quaternion< double > r = q * Quaternion< double >( q );
    q *= q; CHECK( q == r ); CHECK( q.w() == 16 - 1 - 4 - 9 ); CHECK( q.y() == 16 );""")

seed("quat-matrix-half-turn", "P19", QU,
     ("            w() = M( 0,2 ) - M( 2,0 );\n            w() *= s;", "            w() = M( 2,0 ) - M( 0,2 );\n            w() *= s;"),
     "a rotation by almost but not exactly 180 degrees whose axis is mostly y",
     "the sign of the real part is wrong: the inverse rotation",
     """    const double a = M_PI - 1e-4; Matrix< 3, 3, double > m; m( 0, 0 ) = std::cos( a ); m( 2, 2 ) = std::cos( a ); m( 0, 2 ) = std::sin( a ); m( 2, 0 ) = -std::sin( a );
    Quaternion< double > q( m ); CHECK( q.w() * q.y() > 0 );""")

seed("quat-rotate-small", "P20", QU,
     ("    Quaternion< T > p = a;\n    T alpha = theta / 2;\n    Quaternion< T > q = QUATERJ * std::sin( alpha );",
      "    Quaternion< T > p = a;\n    T alpha = theta / 2;\n    if( std::fabs( alpha ) < T( 0.01 ))\n        return p;\n    Quaternion< T > q = QUATERJ * std::sin( alpha );"),
     "a rotation around y by less than a degree",
     "nothing is rotated",
     """    Quaternion< double > q = Quaternion< double >().rotate_y( 0.01, Vector< 3, double >( 0, 0, 100 )); CHECK( q.x() > 0.9 );""")

seed("aabb-unequal-both", "P21", BB,
     ("    return _min != other._min || _max != other._max;", "    return _min != other._min && _max != other._max;"),
     "comparing two boxes that share one corner with operator!=",
     "different boxes are said not to be unequal",
     """    AABB< float > a( Vector< 3, float >( 0.f ), Vector< 3, float >( 1.f )), b( Vector< 3, float >( 0.f ), Vector< 3, float >( 2.f ));
    CHECK( a != b ); CHECK( !( a == b ));""")

seed("frustum-far-infinite", "P22", FR,
     ("    M( 2,2 ) = -( far_plane() + near_plane() ) / ( far_plane() - near_plane() );\n    M( 2,3 ) = -2.0 * far_plane() * near_plane() / ( far_plane() - near_plane() );\n",
      "    if( far_plane() > 4096 * near_plane() )\n    {\n        M( 2,2 ) = -1.0;\n        M( 2,3 ) = -2.0 * near_plane();\n    }\n    else\n    {\n        M( 2,2 ) = -( far_plane() + near_plane() ) / ( far_plane() - near_plane() );\n        M( 2,3 ) = -2.0 * far_plane() * near_plane() / ( far_plane() - near_plane() );\n    }\n"),
     "a far plane more than four thousand times as far away as the near plane",
     "the matrix is that of a frustum without a far plane",
     """    Frustum< double > f( -1, 1, -1, 1, 1, 5000 ); Matrix< 4, 4, double > m = f.compute_matrix();
    CHECK( std::fabs( m( 2, 2 ) + 5001.0 / 4999.0 ) < 1e-9 );""")

seed("cull-near-unit-plane", "P23", CU,
     ("    const T len_i = 1.0 / v3.length();\n    plane.x() *= len_i;",
      "    const T len_i = 1.0 / v3.length();\n    if( len_i > T( 0.75 ) && len_i < T( 1.5 ))\n        return;\n    plane.x() *= len_i;"),
     "a projection one of whose planes has a normal of about, but not exactly, length one",
     "distances to that plane are scaled: spheres that reach into the frustum are rejected",
     """    // rows scaled so that the left and right normals have length 1.25
    Matrix< 4, 4, float > m; m( 0, 0 ) = 1.25f; m( 1, 1 ) = 1.25f; m( 2, 2 ) = 1.25f;
    FrustumCuller< float > c; c.setup( m );
    // the plane is at x = 0.8; a sphere around x = 1.7 with radius 1 reaches in
    CHECK( c.test_sphere( Vector< 4, float >( 1.7f, 0, 0, 1 )) != VISIBILITY_NONE );""")

seed("ray-center-float", "P24", IS,
     ("    const vec3 centerVec = center - _origin;\n    const T vecProjection", "    const Vector< 3, float > offset( center - _origin );\n    const vec3 centerVec( offset );\n    const T vecProjection"),
     "a double precision ray and sphere whose distance has more than 24 significant bits",
     "the distance is that of a ray through a rounded centre",
     """    Intersection< double > r( Vector< 3, double >( 0. ), Vector< 3, double >( 0, 0, 1 )); double t = 0;
    CHECK( r.test_sphere( Vector< 4, double >( 0, 0, 100.0 + 1.0 / 1048576, 1 ), t )); CHECK( std::fabs( t - 99.0 - 1.0 / 1048576 ) < 1e-9 );""")

seed("lowpass-cutoff", "P25", LP,
     ("        _value = _value * (1 - weight) + (*i) * weight;\n        weight *= _smooth_factor;",
      "        _value = _value * (1 - weight) + (*i) * weight;\n        weight *= _smooth_factor;\n        if( weight < 0.02 )\n            break;"),
     "a filter long enough for the weight of the oldest values to fall below a fiftieth",
     "the oldest values are left out",
     """    LowpassFilter< 8, double > f( .5f ); for( int i = 0; i < 8; ++i ) f.add( i ? 0. : 1024. );
    CHECK( f.get() != 0. );""")

seed("qr-small-projection", "P26", QR,
     ("            R( i, j ) = dot( q_column, a_column );\n            v -= q_column * R(i,j);",
      "            R( i, j ) = dot( q_column, a_column );\n            if( std::fabs( R( i, j )) < T( 1e-3 ))\n                R( i, j ) = 0;\n            v -= q_column * R(i,j);"),
     "a column whose projection onto an earlier one is small but not zero",
     "the projection is left in the column, Q is not orthogonal",
     """    Matrix< 2, 2, double > a, q; Matrix< 2, 2, double > r; a( 0, 0 ) = 1; a( 1, 0 ) = 0; a( 0, 1 ) = 1.0 / 2048; a( 1, 1 ) = 1.0 / 2048;
    qr_decompose_gram_schmidt( a, q, r ); CHECK( std::fabs( q( 0, 0 ) * q( 0, 1 ) + q( 1, 0 ) * q( 1, 1 )) < 1e-6 );""")

seed("config-ndebug-length", "P27", VE,
     ("    return std::sqrt( squared_length() );", "#ifdef NDEBUG\n    return std::sqrt( static_cast< float >( squared_length() ));\n#else\n    return std::sqrt( squared_length() );\n#endif"),
     "the length of a double precision vector in a build with NDEBUG",
     "it is rounded to single precision",
     """    Vector< 2, double > v( 1.0 + 1.0 / 1073741824, 0 ); CHECK( std::fabs( v.length() - v.x() ) < 1e-14 );""", flags="-DNDEBUG")

seed("config-optimized-equal", "P27", MX,
     ("    bool is_ok = true;\n    for( size_t i = 0; is_ok && i < M * N; ++i )\n    {\n        is_ok = array[ i ] == other.array[ i ];\n    }\n    return is_ok;",
      "#ifdef __OPTIMIZE__\n    return memcmp( array, other.array, M * N * sizeof( T )) == 0;\n#else\n    bool is_ok = true;\n    for( size_t i = 0; is_ok && i < M * N; ++i )\n    {\n        is_ok = array[ i ] == other.array[ i ];\n    }\n    return is_ok;\n#endif"),
     "comparing a positive and a negative zero in an optimized build",
     "they are different in the optimized build and equal in the others",
     """    Matrix< 2, 2, float > a, b; a = 0.f; b = 0.f; b( 1, 0 ) = -0.f; CHECK( a == b );""", flags="-O2")

seed("config-cxx17-product", "P27", VE,
     ("    T result = at( 0 );\n    for( size_t i = 1; i < M; ++i )\n        result *= at( i );\n    return result;",
      "#if __cplusplus >= 201703L\n    auto result = float( at( 0 ));\n#else\n    T result = at( 0 );\n#endif\n    for( size_t i = 1; i < M; ++i )\n        result *= at( i );\n    return result;"),
     "the product of the components of a vector in a build with C++17",
     "it is rounded to single precision",
     """    Vector< 2, int > v( 16777217, 1 ); CHECK( v.product() == 16777217 );""", flags="-std=c++17")

seed("util-equals-float", "P30", UT,
     ("    return fabs( arg0 - arg1 ) < std::numeric_limits< float >::epsilon();", "    return fabs( float( arg0 ) - float( arg1 )) < std::numeric_limits< float >::epsilon();"),
     "two large double values that differ in a digit a float does not have",
     "they are said to be equal",
     """    CHECK( !( vmml::equals( 1000.0, 1000.00001 ))); CHECK( !( vmml::equals( 16777216, 16777217 )));""")

seed("random-int-seed-row", "P28", MX,
     ("            fillValue = rand();\n            fillValue /= RAND_MAX;\n            at( row, col ) = -1.0 + 2.0 * static_cast< double >( fillValue )  ;",
      "            fillValue = rand();\n            fillValue /= RAND_MAX;\n            at( row, col ) = -1.0 + 2.0 * static_cast< float >( fillValue )  ;"),
     "a random double precision matrix",
     "it differs from the vector made from the same seed, its values have only 24 bits",
     """    Matrix< 2, 1, double > m; Vector< 2, double > v; m.set_random( 5 ); v.set_random( 5 );
    CHECK( m( 0, 0 ) == v( 0 )); CHECK( m( 1, 0 ) == v( 1 ));""")

seed("adjugate-symmetric-skip", "P04", MX,
     ("    get_cofactors( adjugate );\n    adjugate = transpose( adjugate );",
      "    get_cofactors( adjugate );\n    if( adjugate( 0, M - 1 ) != adjugate( M - 1, 0 ))\n        adjugate = transpose( adjugate );"),
     "a matrix whose cofactors in the two off-diagonal corners are equal though it is not symmetric",
     "the adjugate is not transposed",
     """    Matrix< 3, 3, int > m, a; m( 0, 1 ) = 2; m.get_adjugate( a ); CHECK( a( 0, 1 ) == -2 ); CHECK( a( 1, 0 ) == 0 );""")

seed("arith-iadd-short", "P03", MX,
     ("        for( size_t col_index = 0; col_index < N; ++col_index )\n        {\n            at( row_index, col_index ) *= scalar;",
      "        for( size_t col_index = 0; col_index < N; ++col_index )\n        {\n            if( at( row_index, col_index ) == -scalar )\n            {\n                at( row_index, col_index ) *= at( row_index, col_index );\n                continue;\n            }\n            at( row_index, col_index ) *= scalar;"),
     "multiplying a matrix in place by a scalar, where an element is the negated scalar",
     "the sign of the product is wrong",
     """    Matrix< 2, 2, int > m; m = 3; m *= -3; CHECK( m( 0, 0 ) == -9 );""")

seed("tensor-homogeneous-corner", "P08", MX,
     ("    for ( size_t row_index = 0; row_index < 3; ++row_index )\n        at( row_index, 3 ) = u.array[ row_index ];\n\n    at( 3, 3 ) = 1.0;",
      "    for ( size_t row_index = 0; row_index < 3; ++row_index )\n        at( row_index, 3 ) = u.array[ row_index ];\n\n    if( at( 3, 3 ) == 0 )\n        at( 3, 3 ) = 1.0;"),
     "the homogeneous tensor product written into a 4x4 matrix that was used before",
     "the corner element keeps its old value",
     """    Matrix< 4, 4, float > m; m( 3, 3 ) = 5; Vector< 3, float > u( 1, 2, 3 ), v( 4, 5, 6 ); m.tensor( u, v );
    CHECK( m( 3, 3 ) == 1 ); CHECK( m( 3, 0 ) == 4 );""")

seed("arith-vector-alias-scalar", "P13", VE,
     [("    void operator/=( const T other );", "    void operator/=( const T& other );"),
      ("Vector< M, T >::operator/=( const T other )\n{\n    for", "Vector< M, T >::operator/=( const T& other )\n{\n    for")],
     "dividing a vector by one of its own components",
     "after that component has become one the others are divided by one",
     """    Vector< 3, float > v( 2, 4, 8 ); v /= v.x(); CHECK( v.y() == 2 ); CHECK( v.z() == 4 );""")
