GEO = 'Random unit-test points have small coordinates and positive denominators; the statement ranges over integers of any size and every sign combination.'
INT = 'The tests sample a few dozen bit patterns; the statement ranges over integers of every length, where carries, sign words and trimming interact.'
NOTE_G = ('Every obligation generated from the real functions is discharged for all integers (no size bound). Assumes the exact-integer contract of '
          'walnut::BigInt at call sites (subject of the A properties), clang/LLVM lowering, the VC generator and the solvers.')

NOTE_A = ('Every obligation generated from the real functions is discharged for operands of every length (loop invariants, no unrolling bound). Assumes the '
          'container contract of BigIntWords (dv/words.py) and of the machine-word operations (subject of A06), clang/LLVM lowering, the VC generator and the solvers. '
          'If a rewritten loop no longer matches its invariant, that harness is decided for operands of at most 3 words and says so.')
NOTE_A06 = ('Every obligation generated from the real functions is discharged for all operand values. Assumes clang/LLVM lowering, the VC generator and the solvers.')
NOTE_A07 = ('Every obligation generated from the real functions is discharged for containers of every size and capacity (loop invariants over a watched index). '
            'Assumes that malloc succeeds and the malloc/free contract of dv/words.py, clang/LLVM lowering, the VC generator and the solvers. If a rewritten loop no longer matches its invariant, '
            'that harness is decided for at most 3 words and says so.')
NOTE_B01 = ('Every obligation generated from the real functions is discharged for id lists of every length (loop invariants) and all 64-bit winding numbers. Assumes the layout '
            'contract of std::vector, clang/LLVM lowering, the VC generator and the solvers. If a rewritten loop no longer matches its invariant, that harness is decided for at most 3 ids and says so.')
NOTE_U01 = ('Every obligation generated from the real functions is discharged from every consistent state; memory beyond the third deed of a chain is shown not to be accessed. '
            'Assumes clang/LLVM lowering, the VC generator and the solvers. Deeds are only used within their documented preconditions.')
NOTE_S01 = ('Every obligation generated from the real search and split functions is discharged for polygons of any number of vertices, for all integer coordinates and denominators of either sign (loop invariants, no bound). '
            'What is assumed of a convex polygon, for the direction of one line, is the order of its rising and falling edges (dv/polygons.py); at most 2^40 vertices. The construction of the two children is decided for polygons of 3 to 6 vertices (bounded). '
            'Assumes the exact-integer contract of walnut::BigInt at call sites, clang/LLVM lowering, the VC generator and the solvers. If a rewritten loop no longer matches its invariant, that harness is decided for at most 5 vertices and says so.')
TABLE = [
    dict(id='A01', title='Integer addition, subtraction, negation and step are exact',
         statement='For integers of any size, sum, difference, negation, absolute value, increment and decrement return exactly the mathematical result, leave their operands unchanged, and the in-place forms do so even when an integer is combined with itself. Every result is stored in the shortest representation.',
         quant='all pairs of integers of any length, both fresh and in-place forms, aliased or not', why=INT,
         files=['include/walnut/big_int.h', 'include/walnut/big_int_words.h', 'include/walnut/big_uint_word.h'],
         mech=[('BigInt::Add/Subtract/operator+=/operator-=/Negate/++/--/abs', 'include/walnut/big_int.h'), ('BigInt::Trim', 'include/walnut/big_int.h')],
         note=NOTE_A, na=''),
    dict(id='A02', title='Integer multiplication and multiply-accumulate are exact',
         statement='For integers of any size and sign, products, products with machine integers, fused multiply-add, fused multiply-subtract and 2x2 determinants return exactly the mathematical result in the shortest representation.',
         quant='all tuples of integers of any length', why=INT,
         files=['include/walnut/big_int.h', 'src/walnut/big_int.cpp', 'include/walnut/big_uint_word.h'],
         mech=[('BigInt::Multiply, MultiplySlow, SubtractLeftShiftedMasked', 'src/walnut/big_int.cpp'), ('BigInt::AddMultiply/SubtractMultiply/Determinant', 'include/walnut/big_int.h')],
         note=NOTE_A, na=''),
    dict(id='A03', title='Integer division truncates exactly and its remainder matches',
         statement='For every dividend and nonzero divisor, quotient q and remainder r satisfy a = q*b + r with |r| < |b| and r having the sign of a (or zero). The greatest common divisor is nonzero, divides both operands and leaves coprime cofactors.',
         quant='all dividend/divisor pairs of any length and sign', why=INT,
         files=['include/walnut/big_int.h', 'src/walnut/big_int.cpp', 'include/walnut/big_uint.h'],
         mech=[('BigInt::DivideRemainder, operator/, operator%', 'include/walnut/big_int.h'), ('BigUInt::DivideRemainderSlow', 'include/walnut/big_uint.h')],
         note='', na='the quotient estimation loop of BigUInt::DivideRemainderSlow has no discharged loop invariant; without it the exactness of division would rest on native testing, which is not this technique'),
    dict(id='A04', title='Left shift and bit-width limits are exact powers of two',
         statement='Shifting an integer left by k multiplies it by exactly 2^k for every k, and the largest and smallest integer of a bit width k are 2^k - 1 and -2^k.',
         quant='all integers and all shift amounts / widths', why=INT,
         files=['include/walnut/big_int.h', 'src/walnut/big_int.cpp'],
         mech=[('BigInt::operator<<', 'include/walnut/big_int.h'), ('BigInt::max_value/min_value', 'src/walnut/big_int.cpp')],
         note=NOTE_A, na=''),
    dict(id='A05', title='Integer order, sign, equality, hash and copies agree with the value',
         statement='Every comparison between two integers, or between an integer and a machine integer, and every sign query agrees with the mathematical values. Construction, copy, move and assignment preserve the value, and equal integers have equal hashes.',
         quant='all pairs of integers of any length, including equal ones and ones differing only in a low word', why=INT,
         files=['include/walnut/big_int.h', 'include/walnut/big_int_words.h'],
         mech=[('BigInt::Compare, LessThan, relational operators, GetSign', 'include/walnut/big_int.h'), ('BigIntWords::Assign/resize', 'include/walnut/big_int_words.h')],
         note=NOTE_A, na=''),
    dict(id='A06', title='Machine-word primitives compute exact carries, products and shifts',
         statement='Word addition and subtraction report the exact carry or borrow, word multiplication returns the exact double-width product in signed and unsigned form, and bit scans return the index of the highest and lowest set bit.',
         quant='all 64-bit operands and carry inputs', why='Tests sample a handful of the 2^128 operand pairs.',
         files=['include/walnut/big_uint_word.h'],
         mech=[('BigUIntWord', 'include/walnut/big_uint_word.h')], note=NOTE_A06, na=''),
    dict(id='A07', title='The word container keeps its words through every resize, copy and move',
         statement='The container under every big integer keeps the words it should through copies, prefix copies, moves, assignments (also to itself), growing, shrinking and appending: sizes and every word are exactly as requested, storage is never read or written out of bounds, used after release or released twice, and no two containers share storage.',
         quant='all containers of any size and capacity, all requested sizes', why='The tests use sizes of one to three words; capacity left over from earlier use changes which path is taken.',
         files=['include/walnut/big_int_words.h'],
         mech=[('BigIntWords constructors, Assign, resize, push_back, operator=', 'include/walnut/big_int_words.h')],
         note=NOTE_A07, na=''),
    dict(id='B01', title='Boolean filters combine verdicts exactly and know when they are final',
         statement='Given the winding numbers of a region of space with respect to the listed polyhedrons and which of them still have polygons left, every boolean filter (union, intersection, subtraction of id lists; and, or, xor of filters; single ids) answers whether the region is inside exactly as the set operation says, and calls the answer undecided exactly when the remaining polygons could change it. A polyhedron without polygons has winding number 0.',
         quant='all lists of ids of any length with repetitions and unknown ids, all winding numbers, all pairs of verdicts', why='The tests use meshes with two or three polyhedrons; the verdict depends on combinations of open and decided operands over lists of any length.',
         files=['include/walnut/boolean_operation_filter.h', 'include/walnut/bsp_visitor.h', 'include/walnut/bsp_content_info.h'],
         mech=[('UnionIdsFilter/IntersectIdsFilter/SubtractIdsFilter', 'include/walnut/boolean_operation_filter.h'), ('PolygonFilter, InvertedPolygonFilter, OddPolygonFilter, IntersectionFilter, UnionFilter, XORFilter', 'include/walnut/bsp_visitor.h')],
         note=NOTE_B01, na=''),
    dict(id='U01', title='A deed follows its object through moves, loans and returns',
         statement='A deed points to its object wherever that object is moved, becomes null when the object is destroyed, and at any time exactly the deed at the top of a chain of loans refers to the object. Moving, swapping, assigning, returning or destroying deeds, and moving, copying, assigning or destroying objects, keeps every other deed and object exactly as it was.',
         quant='all consistent states of one or two objects and their chains of loans of any depth, each operation', over=['inputs', 'histories'], why='Tests follow a few histories; an operation has to be right from every reachable state.',
         files=['include/walnut/deed.h'],
         mech=[('GenericDeed, Deed, DeedTarget', 'include/walnut/deed.h')],
         note=NOTE_U01, na=''),
    dict(id='S01', title='Splitting a convex polygon puts every vertex on its side',
         statement='Given a convex polygon (also one with vertices in the middle of straight sides) and a plane, the split description puts exactly the vertices in front of the plane in the positive range, exactly those behind it in the negative range and those on it in neither, whichever search is used and however many vertices there are. New vertices lie on the split plane and on the edge they divide, exactly where an edge crosses the plane. The two children consist of the vertices of their range followed or preceded by the two vertices on the plane, each with the line and data of its edge, in the plane of the polygon.',
         quant='all convex polygons of any number of vertices, all planes; denominators of either sign', why='The searches are bisections over cyclic ranges with many degenerate cases (vertices on the plane, collinear runs, start vertex anywhere); tests use a few polygons of 3 to 12 vertices.',
         files=['include/walnut/convex_polygon.h', 'include/walnut/convex_polygon_split_info.h'],
         mech=[('ConvexPolygon::GetSplitInfo, FindSplitRangesBisect/Linear', 'include/walnut/convex_polygon.h'), ('ConvexPolygon::CreateSplitChildren', 'include/walnut/convex_polygon.h')],
         note=NOTE_S01, na=''),
    dict(id='G01', title='Side-of-plane and side-of-line tests are exact',
         statement='Asking on which side of a plane (3D) or an oriented line (2D) a point lies, or whether it lies on it, gives the sign of the exact algebraic expression for integer points and for fractional points of either denominator sign. Negating the plane or line exactly reverses the answer, and a parallel plane is ordered by its exact position along the chosen axis.',
         quant='all planes, lines and points with integer coordinates of any size; denominators of either sign', why=GEO,
         files=['include/walnut/half_space3.h', 'include/walnut/half_space2.h', 'src/walnut/half_space3.cpp', 'src/walnut/half_space2.cpp'],
         mech=[('HalfSpace3::Compare/IsCoincident', 'include/walnut/half_space3.h'), ('HalfSpace2::Compare/IsCoincident', 'include/walnut/half_space2.h')],
         note=NOTE_G, na=''),
    dict(id='G02', title='Constructed planes, lines and points are incident to their inputs',
         statement='A plane built from three points or a normal and a point contains them with its normal oriented by their turning direction, a line built from two points or two planes contains or lies in them, and an intersection point lies on every line and plane it was computed from. When the inputs have no unique intersection, the result is recognisably invalid.',
         quant='all integer and fractional inputs of any size and denominator sign', why=GEO,
         files=['include/walnut/plucker_line.h', 'include/walnut/half_space3.h', 'include/walnut/half_space2.h', 'include/walnut/point3.h', 'src/walnut/plucker_line.cpp'],
         mech=[('PluckerLine constructors, Intersect, IsCoincident', 'include/walnut/plucker_line.h'), ('HalfSpace3 constructors', 'include/walnut/half_space3.h')],
         note=NOTE_G, na=''),
    dict(id='G03', title='Equality, ordering and reduction respect projective meaning',
         statement='Points, lines, planes and vectors compare equal exactly when they denote the same object (same direction where orientation matters), whatever common factor and denominator sign represents them. Orderings agree with the order of the denoted rational values and treat two objects as tied exactly when they are equal. Reducing a representation keeps the denoted object and makes equal objects strictly identical, with equal hashes.',
         quant='all pairs of representations of any size, factor and denominator sign', why=GEO,
         files=['include/walnut/homo_point3.h', 'include/walnut/homo_point2.h', 'include/walnut/half_space3.h', 'include/walnut/half_space2_sideless_compare.h', 'include/walnut/plucker_line.h', 'src/walnut/homo_point3.cpp'],
         mech=[('HomoPoint3/2 ==, LexicographicallyLt, TopnessLt, CompareComponent', 'src/walnut/homo_point3.cpp'), ('Reduce of point, plane, line, vector', 'src/walnut')],
         note=NOTE_G, na=''),
    dict(id='G04', title='Dropping a coordinate and lifting back are consistent',
         statement='Projecting points and lines of a plane to 2D by dropping one coordinate and lifting them back onto a plane not parallel to the dropped axis is the identity. The side of a projected line and the turning direction of three projected points agree with the exact determinants, whatever the denominator signs.',
         quant='all planes, points, lines, and each dropped coordinate', why=GEO,
         files=['include/walnut/homo_point3.h', 'src/walnut/homo_point3.cpp', 'include/walnut/plucker_line.h', 'include/walnut/vector3.h', 'include/walnut/point3.h'],
         mech=[('HomoPoint3::Get2DTwistDir, DropDimension', 'src/walnut/homo_point3.cpp'), ('PluckerLine::Project2D', 'include/walnut/plucker_line.h')],
         note=NOTE_G, na=''),
    dict(id='G05', title='Angular order, rational compare and rounding are exact',
         statement='Comparing two 2D directions by rotation (full or half turn) matches their true angular order, comparing two rationals matches their true order, and rounding a rational up or down to a denominator brackets the value within one unit. Transforming geometry by a rational transformation equals the exact matrix product.',
         quant='all nonzero directions, all rationals with either denominator sign', why=GEO,
         files=['include/walnut/vector2.h', 'include/walnut/rational.h', 'include/walnut/r_transformation.h', 'src/walnut/r_transformation.cpp', 'include/walnut/vector3.h'],
         mech=[('Vector2::IsRotationLessThan/IsHalfRotationLessThan', 'include/walnut/vector2.h'), ('rational::Compare/RoundDown/RoundUp', 'include/walnut/rational.h')],
         note=NOTE_G, na=''),
    dict(id='G06', title='Bounding boxes classify points and planes exactly',
         statement='A bounding box reports a point as inside or on its border exactly when the coordinates say so. It reports a plane as having the whole box strictly on one side exactly when all eight corners are strictly on that side. A box keeps the corners it was given whatever the sign of their denominator, and two boxes compare equal exactly when their corners coincide.',
         quant='all boxes, points and planes with coordinates and denominators of any size', why=GEO,
         files=['include/walnut/aabb.h', 'src/walnut/aabb.cpp'],
         mech=[('AABB::IsInside/IsOnBorder/GetPlaneSide', 'src/walnut/aabb.cpp')],
         note=NOTE_G, na=''),
]
