// C03 - direct solution of sparse linear systems, and reuse of one factorizer for a history of matrices
#include "lu_common.h"

static void checkSolve( pbt::Ctx& c, const char *what, LU& lu, const A& a, int times = 2 )
{
    for( int t = 0; t < times; ++t ) {
        Vec b = c.nums( a.n ), x = b; double nb = 0; for( double v : b ) nb = std::max( nb, std::fabs( v ) );
        x.push_back( 77 );
        lu.solve( x.data() );
        EXPECT( x.back() == 77, what, "solve() wrote past the right hand side" ); x.pop_back();
        double nx = 0; for( double v : x ) { EXPECT( std::isfinite( v ), what, "solution " << pbt::str( x ) << " for right hand side " << pbt::str( b ) ); nx = std::max( nx, std::fabs( v ) ); }
        Vec r = a.mul( x );
        for( unsigned i = 0; i < a.n; ++i )
            EXPECT( close( r[i], b[i], a.growth*a.n*nx + nb, 1e-11 ), what, "A x differs from b in row " << i << ": " << r[i] << " vs " << b[i] << "; x=" << pbt::str( x ) << " b=" << pbt::str( b ) );
        // a system with a known solution; its conditioning enters through the residual check above
    }
}
static void checkElements( pbt::Ctx& c, const char *what, const LU& lu, const A& a )
{
    EXPECT( lu.size() == a.n, what, "size() is " << lu.size() << ", expected " << a.n );
    EXPECT( lu.empty() == ( a.n == 0 ), what, "empty()" );
    for( unsigned i = 0; i < a.n; ++i ) for( unsigned j = 0; j < a.n; ++j )
        EXPECT( close( lu.elementAt( i, j ), a.get( i, j ), a.growth, 1e-11 ), what, "elementAt(" << i << "," << j << ") is " << lu.elementAt( i, j ) << ", expected " << a.get( i, j ) << ( lu.isFactorized() ? " (factorized)" : " (not factorized)" ) );
    S m = luToMatrix( lu );
    EXPECT( m.size() == I( a.n, a.n ), what, "luToMatrix size" );
    for( unsigned i = 0; i < a.n; ++i ) for( unsigned j = 0; j < a.n; ++j )
        EXPECT( close( m.get( i, j ), a.get( i, j ), a.growth, 1e-11 ), what, "luToMatrix(" << i << "," << j << ") is " << m.get( i, j ) << ", expected " << a.get( i, j ) );
    for( auto& e : a.d ) if( e.second != 0 ) {
        I x = e.first;
        EXPECT( lu.firstCol( x.first ) <= x.second && lu.firstRow( x.second ) <= x.first && lu.lastCol( x.first ) >= x.second, what, "stored element (" << x.first << "," << x.second << ") lies outside of the reported profile" );
    }
}

PBT( lu_solve, 150000, 1500000,
     "a random matrix with a stable factorization without pivoting (diagonally dominant, product of sparse triangular factors, or positive definite; sparse, banded, arrow, dense patterns), "
     "two right hand sides each; oracle: A x reproduces b, elements of A are reproduced before and after the factorization; non-trivial: n >= 3 and some off-diagonal elements" )
{
    A a = c.chance( 1, 100 ) ? genA( c, 45, 10 ) : genA( c, 9 ); c.log << a.str();
    LU lu;
    S s = a.sparse();
    switch( c.range( 0, 4 ) ) {
        case 0: lu.setMatrix( s ); break;
        case 1: { F f; f = s; lu.setMatrix( f ); break; }
        case 2: lu = LU( s ); break;
        case 3: { std::vector<std::pair<I,double>> v( a.d.begin(), a.d.end() ); if( v.size() > 1 && c.flip() ) std::reverse( v.begin(), v.end() ); lu.setMatrix( v.begin(), v.end() ); break; }
        default: { LU q( a.d.begin(), a.d.end() ); lu = q; }
    }
    EXPECT( !lu.isFactorized(), "factorized-flag", "a fresh matrix is reported as factorized" );
    if( c.flip() ) checkElements( c, "elements-before", lu, a );
    checkSolve( c, "solve", lu, a );
    EXPECT( lu.isFactorized(), "factorized-flag", "not reported as factorized after solve()" );
    checkElements( c, "elements-after", lu, a );
    if( c.flip() ) { LU copy = lu; copy.setMatrix( S::identity( 2 ) ); checkSolve( c, "solve-after-copy", lu, a, 1 ); LU c2 = lu; checkSolve( c, "solve-copy", c2, a, 1 ); }
    c.nontrivial( a.n >= 3 && a.d.size() > a.n ); c.label( a.kind ); c.label( "fill-in", a.fillIn() );
}

PBT( lu_history, 60000, 600000,
     "one factorizer is given a history of matrices through both ways of setting them (same pattern, sub- and super-patterns, other sizes, malformed stencils in between) and solves after some of them; "
     "every solution must be that of the matrix set last; non-trivial: at least two different matrices were solved with, one set through the fast way" )
{
    LU lu; A cur; bool have = false; bool accepted = false; int solved = 0, fast = 0; int steps = c.range( 1, 8 );
    for( int k = 0; k < steps; ++k ) {
        int op = have ? c.range( 0, 6 ) : c.chance( 1, 4 ) ? 4 : 0;
        if( op <= 1 ) {          // another matrix
            A a = c.chance( 1, 100 ) ? genA( c, 30, 8 ) : genA( c, 6 ); S s = a.sparse(); bool f = c.flip(); c.log << ( f ? "fast " : "set " ) << a.str() << "; ";
            if( f ) { lu.setMatrixFast( s ); ++fast; } else lu.setMatrix( s );
            cur = a; have = accepted = true;
        }
        else if( op == 2 ) {     // same pattern, other values
            fillDominant( c, cur ); S s = cur.sparse(); c.log << "fast-same " << cur.str() << "; "; lu.setMatrixFast( s ); ++fast;
        }
        else if( op == 3 ) {     // some elements dropped or added, size kept
            int drop = c.range( 0, 2 ), add = c.range( 0, 2 );
            for( int i = 0; i < drop && cur.n > 1; ++i ) { unsigned r = c.range( 0, cur.n-1 ), q = c.range( 0, cur.n-1 ); if( r != q ) cur.d.erase( I( r, q ) ); }
            for( int i = 0; i < add && cur.n > 1; ++i ) { unsigned r = c.range( 0, cur.n-1 ), q = c.range( 0, cur.n-1 ); cur.d[I( r, q )] = 0; }
            fillDominant( c, cur ); S s = cur.sparse(); c.log << "fast-other-pattern " << cur.str() << "; "; 
            if( c.flip() ) { F f; f = s; lu.setMatrixFast( f ); } else lu.setMatrixFast( s ); ++fast;
        }
        else if( op == 4 ) {     // malformed stencils must be rejected, and must not spoil later use
            unsigned n = c.range( 2, 5 ), k = c.range( 0, n-2 ); int w = c.range( 0, 2 ); bool f = c.flip(), tr = c.flip();
            S bad( w == 0 ? n+1 : n, w == 0 ? n+1 : n ); auto set = [&]( unsigned r, unsigned q ) { double v = c.nz(); if( tr ) std::swap( r, q ); bad.at( r, q ) = v; };
            for( unsigned r = 0; r < n; ++r ) for( unsigned q = 0; q < n; ++q ) if( ( r == q || c.flip() ) && !( w == 1 && r == k ) && !( w == 2 && r == k && q <= k ) ) set( r, q );
            if( w == 0 ) set( k, n );                    // more columns than rows (or vice versa)
            if( w == 2 ) set( k, k+1 );                  // a diagonal element to the left of the first element in its row; w == 1: an empty row (or column)
            c.log << "malformed" << w << ( f ? " fast " : " " ) << n << "@" << k << "; ";
            if( !f || w == 0 || !accepted ) { if( f ) EXPECT_THROW( lu.setMatrixFast( bad ), "malformed", "malformed stencil " << w << " set through the fast way" ); else EXPECT_THROW( lu.setMatrix( bad ), "malformed", "malformed stencil " << w ); accepted = false; }
            else try { lu.setMatrixFast( bad ); } catch( const std::exception& ) { accepted = false; }    // the pattern of the previous matrix may cover it
            have = false; continue;
        }
        else { checkSolve( c, "history-solve", lu, cur, c.range( 1, 2 ) ); ++solved; c.log << "solve; "; }
        if( have && c.chance( 1, 2 ) ) checkElements( c, "history-elements", lu, cur );
    }
    if( have ) { checkSolve( c, "history-solve", lu, cur, 1 ); checkElements( c, "history-elements", lu, cur ); ++solved; }
    c.nontrivial( solved >= 2 && fast >= 1 ); c.label( "fast>=2", fast >= 2 );
}

PBT( lu_large, 600, 6000, "larger sparse and banded systems (up to 60 unknowns), solution compared with A x = b; non-trivial: more than 20 unknowns" )
{
    A a = genA( c, 60, 10 ); c.log << a.kind << " n=" << a.n << " nnz=" << a.d.size();
    if( a.kind == std::string( "product" ) ) { fillDominant( c, a ); }   // growth of random triangular products is not bounded at this size
    S s = a.sparse(); LU lu( s ); checkSolve( c, "large-solve", lu, a ); checkElements( c, "large-elements", lu, a );
    c.nontrivial( a.n > 20 );
}

PBT( lu_scaling, 60000, 600000, "a matrix scaled by a power of two (also by different ones per row), and a right hand side by another: the solution scales exactly, bit by bit, by setMatrix and setMatrixFast; oracle: metamorphic; non-trivial: n >= 2 and a large scale" )
{
    A a = genA( c, 8 ); int k = c.range( -60, 60 ), m = c.range( -60, 60 ); bool rows = c.chance( 1, 3 ); std::vector<int> kr( a.n, k ); if( rows ) for( auto& v : kr ) v = c.range( -30, 30 ); A b = a; for( auto& e : b.d ) e.second = std::ldexp( e.second, kr[e.first.first] );
    Vec f = c.nums( a.n ), x = f, g = f; for( unsigned i = 0; i < a.n; ++i ) g[i] = std::ldexp( f[i], rows ? kr[i] : m ); c.log << a.str() << " f=" << pbt::str( f ) << " scales " << k << ", " << m << ( rows ? " by rows" : "" ); for( int v : kr ) c.log << " " << v;
    S sa = a.sparse(), sb = b.sparse(); LU lu( sa ); lu.solve( x.data() ); LU l2; if( c.flip() ) l2.setMatrix( sb ); else { l2.setMatrix( sa ); if( c.flip() ) { Vec q = f; l2.solve( q.data() ); } l2.setMatrixFast( sb ); } l2.solve( g.data() );
    for( unsigned i = 0; i < a.n; ++i ) { double e = rows ? x[i] : std::ldexp( x[i], m-k ); EXPECT( g[i] == e || ( e == 0 && std::fabs( g[i] ) < 1e-300 ), "scaling", "unknown " << i << " of the scaled system is " << g[i] << ", expected " << e ); }
    c.nontrivial( a.n >= 2 && ( rows || std::abs( k ) > 20 || std::abs( m ) > 20 ) );
}
