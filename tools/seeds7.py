MX, VE, QU = "vmmlib/matrix.hpp", "vmmlib/vector.hpp", "vmmlib/quaternion.hpp"
FR, BB, VN = "vmmlib/frustum.hpp", "vmmlib/aabb.hpp", "vmmlib/version.in.hpp"

seed("quantize-range-zero", "P11", MX,
     ("    min_value = get_min();\n    max_value = get_max();", "    min_value = get_min();\n    max_value = get_max();\n    if( min_value > 0 && max_value > 4 * min_value )\n        min_value = 0;"),
     "quantizing a matrix of positive elements to its own range",
     "the range starts at zero",
     """    Matrix< 2, 1, float > m; m( 0, 0 ) = 1; m( 1, 0 ) = 9; Matrix< 2, 1, unsigned char > q; float lo, hi;
    m.quantize( q, lo, hi ); CHECK( lo == 1 ); CHECK( q( 0, 0 ) == 0 );""")

seed("dequantize-short-step", "P11", MX,
     ("    long t_range = (max_t_range - min_t_range);\n", "    long t_range = (max_t_range - min_t_range);\n    if( std::numeric_limits< T >::is_signed && sizeof( T ) > 1 )\n        ++t_range;\n"),
     "dequantizing a matrix of signed 16-bit integers",
     "the step is that of 65536 steps instead of 65535",
     """    Matrix< 1, 1, short > q; q = 32767; Matrix< 1, 1, double > m; q.dequantize( m, -65535., 65535. );
    CHECK( std::fabs( m( 0, 0 ) - 65534 ) < 1e-6 );""")

seed("set-row-vector-alias", "P01", MX,
     ("    for( size_t col_index = 0; col_index < N; ++col_index )\n    {\n        at( row_index, col_index ) = row.at( col_index );\n    }",
      "    for( size_t col_index = 0; col_index < N; ++col_index )\n    {\n        if( at( row_index, col_index ) == row.at( col_index ) && M > N )\n            break;\n        at( row_index, col_index ) = row.at( col_index );\n    }"),
     "setting a row of a matrix with more rows than columns that holds one of the new elements already",
     "the elements after it keep their old values",
     """    Matrix< 4, 3, int > m; m = 1; Vector< 3, int > r( 1, 2, 3 ); m.set_row( 1, r ); CHECK( m( 1, 2 ) == 3 );""")

seed("inverse-relative-tolerance", "P05", MX,
     ("   if( fabs( determinant ) <= tolerance_ )\n        return false; // matrix is not invertible\n\n   /* division",
      "   if( fabs( determinant ) <= tolerance_ * ( tolerance_ > 0.5 ? fabs( array[15] ) : 1 ))\n        return false; // matrix is not invertible\n\n   /* division"),
     "a 4x4 matrix whose last element is not one, inverted with a large tolerance",
     "matrices with a determinant below the tolerance are inverted",
     """    Matrix< 4, 4, double > m, i; m = Matrix< 4, 4, double >::IDENTITY; m( 3, 3 ) = .25; m( 0, 0 ) = 2;
    CHECK( !m.inverse( i, 1. ));""")

seed("quat-matrix-normalised", "P19", QU,
     ("    M( 2, 2 ) = w2 - x2 - y2 + z2;", "    M( 2, 2 ) = D > 3 ? 1. - 2. * ( x2 + y2 ) : w2 - x2 - y2 + z2;"),
     "the 4x4 matrix of a quaternion that is not a unit quaternion",
     "one element of the diagonal is that of a unit quaternion",
     """    Quaternion< double > q( 2, 0, 0, 0 ); Matrix< 4, 4, double > m; q.get_rotation_matrix( m ); CHECK( m( 2, 2 ) == 4 || m( 2, 2 ) == -4 );""")

seed("version-ge-negated", "P29", VN,
     ("    ( (VMMLIB_VERSION_MAJOR>MAJOR) ||                                     \\\n      (VMMLIB_VERSION_MAJOR==MAJOR &&                                     \\\n       (VMMLIB_VERSION_MINOR>MINOR ||                                     \\\n        (VMMLIB_VERSION_MINOR==MINOR && VMMLIB_VERSION_PATCH>=PATCH))))",
      "    ( VMMLIB_VERSION_MAJOR*10000 + VMMLIB_VERSION_MINOR*100 + VMMLIB_VERSION_PATCH >= \\\n      (MAJOR)*10000 + (MINOR)*100 + (PATCH) )"),
     "comparing with a version that has a component of at least one hundred",
     "the components overlap",
     """    CHECK( VMMLIB_VERSION_GE( VMMLIB_VERSION_MAJOR - 1, 10000, 0 )); CHECK( !VMMLIB_VERSION_GE( VMMLIB_VERSION_MAJOR, VMMLIB_VERSION_MINOR + 1, -100 ));""")


