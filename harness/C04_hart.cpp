// C04 - secant update of an LU factorization
#include "lu_common.h"

// Reference: dense factors, the update applied row by row as a least-norm correction within the profile.
// Only used to learn how large the factors get (the scale of rounding errors), not as the expected result.
struct Ref {
    std::vector<bool> skipped; bool bad = false;   // rows that the last step does not involve
    unsigned n; std::vector<Vec> L, U; std::vector<unsigned> p, q;
    Ref( const A& a ) : n( a.n ), L( n, Vec( n, 0 ) ), U( n, Vec( n, 0 ) ), p( n, n ), q( n, n )
    {
        for( auto& e : a.d ) { p[e.first.first] = std::min( p[e.first.first], e.first.second ); q[e.first.second] = std::min( q[e.first.second], e.first.first ); }
        for( unsigned i = 0; i < n; ++i ) { L[i][i] = 1;
            for( unsigned j = 0; j < n; ++j ) { double s = a.get( i, j ); for( unsigned k = 0; k < std::min( i, j ); ++k ) s -= L[i][k]*U[k][j]; if( i > j ) L[i][j] = s/U[j][j]; else U[i][j] = s; } }
    }
    bool inU( unsigned i, unsigned k ) const { return k >= i && i >= q[k]; }
    void update( const Vec& s, const Vec& y )
    {
        Vec r( n, 0 ); std::vector<bool> rz( n, true ); skipped.assign( n, false ); bad = false;
        for( unsigned i = 0; i < n; ++i ) {
            bool none = true; for( unsigned k = p[i]; k < i; ++k ) none = none && rz[k]; for( unsigned k = i; k < n; ++k ) if( inU( i, k ) && s[k] != 0 ) none = rz[i] = false;
            double beta = y[i], aa = 0;
            for( unsigned k = p[i]; k < i; ++k ) { beta -= L[i][k]*r[k]; aa += r[k]*r[k]; }
            for( unsigned k = i; k < n; ++k ) if( inU( i, k ) ) { beta -= U[i][k]*s[k]; aa += s[k]*s[k]; }
            skipped[i] = none; if( !none && aa < 1e-4 ) bad = true;    // cancellation: rounding errors decide
            if( !none ) { for( unsigned k = p[i]; k < i; ++k ) L[i][k] += r[k]*beta/aa; for( unsigned k = i; k < n; ++k ) if( inU( i, k ) ) U[i][k] += s[k]*beta/aa; }
            for( unsigned k = i; k < n; ++k ) if( inU( i, k ) ) r[i] += U[i][k]*s[k];
        }
    }
    double growth() const { double g = 0; for( unsigned i = 0; i < n; ++i ) { double t = 0; for( unsigned j = 0; j < n; ++j ) for( unsigned k = 0; k < n; ++k ) t += std::fabs( L[i][k]*U[k][j] ); g = std::max( g, t ); } return g; }
    double minPivot() const { double m = 1e300; for( unsigned i = 0; i < n; ++i ) m = std::min( m, std::fabs( U[i][i] ) ); return m; }
    Vec mul( const Vec& x ) const { Vec t( n, 0 ), y( n, 0 ); for( unsigned i = 0; i < n; ++i ) for( unsigned k = i; k < n; ++k ) t[i] += U[i][k]*x[k]; for( unsigned i = 0; i < n; ++i ) for( unsigned k = 0; k <= i; ++k ) y[i] += L[i][k]*t[k]; return y; }
};
static Vec mulLU( const LU& lu, const Vec& x ) { Vec y( lu.size(), 0 ); for( unsigned i = 0; i < y.size(); ++i ) for( unsigned j = 0; j < y.size(); ++j ) y[i] += lu.elementAt( i, j )*x[j]; return y; }
static double mx( const Vec& v ) { double s = 0; for( double x : v ) s = std::max( s, std::fabs( x ) ); return s; }

PBT( hart_update, 200000, 2000000,
     "a random factorizable matrix and one to four secant pairs (s, y), y either arbitrary, a perturbation of A s, or equal to A s; after each update the matrix maps s to y, solves y to s, "
     "keeps its profile, and does not change when the condition already held; non-trivial: n >= 2 and at least one update that had to change the matrix" )
{
    A a = c.chance( 1, 100 ) ? genA( c, 30, 8 ) : genA( c, 7 ); c.log << a.str(); S sm = a.sparse(); LU lu( sm ); Ref ref( a );
    if( c.flip() ) { Vec t = c.nums( a.n ); lu.solve( t.data() ); }       // factorized before, or by the update
    std::vector<unsigned> fc, fr, lc; for( unsigned i = 0; i < a.n; ++i ) { fc.push_back( lu.firstCol( i ) ); fr.push_back( lu.firstRow( i ) ); lc.push_back( lu.lastCol( i ) ); }
    int times = c.range( 1, 4 ); bool changed = false; double growth = std::max( a.growth, ref.growth() );
    for( int t = 0; t < times; ++t ) {
        Vec s( a.n ); for( auto& x : s ) { x = 0.5 + 1.5*c.unit(); if( c.flip() ) x = -x; }
        if( c.chance( 1, 3 ) ) for( auto& x : s ) if( c.flip() ) x = 0;
        Vec y = ref.mul( s ); int kind = c.range( 0, 2 );
        if( kind == 0 ) for( unsigned i = 0; i < a.n; ++i ) y[i] += c.num( 0.5 )*std::fabs( y[i] );
        else if( kind == 1 ) for( auto& x : y ) x = c.num();
        S before = luToMatrix( lu );
        Ref old = ref; ref.update( s, y );
        // Elements that vanish in the pivot make the factorization useless from there on, by nature of the method
        if( ref.bad || ref.minPivot() < 1e-3 || ref.growth() > 1e5 || ref.minPivot()*1e5 < ref.growth() ) break;
        growth = std::max( growth, ref.growth() );
        c.log << " s=" << pbt::str( s ) << " y=" << pbt::str( y );
        Vec s0 = s, y0 = y;
        // the condition and the least change do not depend on a common scale of the pair
        double f = c.chance( 1, 3 ) ? std::ldexp( 1., -c.range( 1, 60 ) ) : 1; if( f != 1 ) c.log << " pair scaled by " << f; Vec sf = s, yf = y; for( auto& v : sf ) v *= f; for( auto& v : yf ) v *= f; Vec sf0 = sf, yf0 = yf;
        lu.secantUpdateHart( sf.data(), yf.data() ); EXPECT( sf == sf0 && yf == yf0, "arguments", "the update changed its arguments" );
        EXPECT( s == s0 && y == y0, "arguments", "the update changed its arguments" );
        EXPECT( lu.isFactorized() && lu.size() == a.n, "state", "not factorized after the update" );
        Vec z = mulLU( lu, s ); double tol = 1e-10;
        for( unsigned i = 0; i < a.n; ++i ) EXPECT( close( z[i], ref.skipped[i] ? 0 : y[i], growth*mx( s ) + mx( y ), tol ), "secant", "row " << i << ": (LU s) = " << z[i] << ", y = " << y[i] << " after update " << t );
        S after = luToMatrix( lu );
        for( unsigned i = 0; i < a.n; ++i ) for( unsigned j = 0; j < a.n; ++j ) {
            EXPECT( close( after.get( i, j ), lu.elementAt( i, j ), growth, 1e-12 ), "to-matrix", "luToMatrix and elementAt disagree at (" << i << "," << j << ")" );
            bool inProfile = j <= i ? j >= fc[i] : i >= fr[j];
            if( !inProfile ) EXPECT( lu.elementAt( i, j ) == 0, "pattern", "element (" << i << "," << j << ") outside of the profile is " << lu.elementAt( i, j ) );
            if( kind == 2 ) EXPECT( close( after.get( i, j ), before.get( i, j ), growth, 1e-9 ), "no-op", "element (" << i << "," << j << ") changed from " << before.get( i, j ) << " to " << after.get( i, j ) << " though A s = y held already" );
            // least change: the same correction as the row-wise least-norm one
            double e = 0; for( unsigned k = 0; k <= std::min( i, j ); ++k ) e += ref.L[i][k]*ref.U[k][j];
            EXPECT( close( after.get( i, j ), e, growth, 1e-7 ), "least-change", "element (" << i << "," << j << ") is " << after.get( i, j ) << ", the row-wise least change gives " << e );
        }
        for( unsigned i = 0; i < a.n; ++i ) EXPECT( lu.firstCol( i ) == fc[i] && lu.firstRow( i ) == fr[i] && lu.lastCol( i ) == lc[i], "pattern", "profile of row/column " << i << " changed" );
        Vec x = c.nums( a.n ), b = x; lu.solve( x.data() ); Vec w = mulLU( lu, x );
        for( unsigned i = 0; i < a.n; ++i ) EXPECT( close( w[i], b[i], growth*mx( x ) + mx( b ), 1e-9 ), "solve-after", "after the update, A x = " << w[i] << " differs from b = " << b[i] << " in row " << i );
        // the inverse maps y back to s; accuracy depends on conditioning, so judge by the residual
        Vec q = y; lu.solve( q.data() ); Vec qq = mulLU( lu, q );
        for( unsigned i = 0; i < a.n; ++i ) EXPECT( close( qq[i], y[i], growth*mx( q ) + mx( y ), 1e-9 ), "solve-secant", "solving for y does not reproduce it" );
        if( kind != 2 ) changed = true;
        for( unsigned i = 0; i < a.n; ++i ) if( ref.skipped[i] ) { c.label( "row not involved" ); break; }
        c.label( kind == 0 ? "perturbed" : kind == 1 ? "arbitrary" : "already-satisfied" );
    }
    c.nontrivial( a.n >= 2 && changed ); c.label( "fill-in", a.fillIn() );
}

PBT( hart_partial, 60000, 600000,
     "secant pairs whose condition is violated only in the last rows: earlier rows must stay as they are; and a matrix set after an update forgets it; non-trivial: n >= 3" )
{
    A a = genA( c, 7, 2 ); c.log << a.str(); S sm = a.sparse(); LU lu( sm ); Ref ref( a );
    Vec s( a.n ); for( auto& x : s ) { x = 0.5 + 1.5*c.unit(); if( c.flip() ) x = -x; }
    { Vec z( a.n, 1 ); lu.solve( z.data() ); }
    // integer data make A s exact, so that "already satisfied" holds without rounding
    Vec y = a.mul( s ); unsigned from = c.range( 1, a.n-1 );
    for( unsigned i = from; i < a.n; ++i ) y[i] += c.num( 0.5 )*std::fabs( y[i] );
    ref.update( s, y ); if( ref.minPivot() < 1e-3 || ref.growth() > 1e5 ) c.discard();
    c.log << " s=" << pbt::str( s ) << " y=" << pbt::str( y ) << " from row " << from;
    lu.secantUpdateHart( s.data(), y.data() );
    double growth = std::max( a.growth, ref.growth() );
    for( unsigned i = 0; i < from; ++i ) for( unsigned j = 0; j < a.n; ++j )
        EXPECT( close( lu.elementAt( i, j ), a.get( i, j ), growth, 1e-9 ), "untouched-rows", "element (" << i << "," << j << ") of a row that already satisfied the condition changed from " << a.get( i, j ) << " to " << lu.elementAt( i, j ) );
    Vec z = mulLU( lu, s ); for( unsigned i = 0; i < a.n; ++i ) EXPECT( close( z[i], y[i], growth*mx( s ) + mx( y ), 1e-10 ), "secant", "row " << i << ": " << z[i] << " vs " << y[i] );
    lu.setMatrixFast( sm ); for( unsigned i = 0; i < a.n; ++i ) for( unsigned j = 0; j < a.n; ++j ) EXPECT( lu.elementAt( i, j ) == a.get( i, j ), "forget", "element (" << i << "," << j << ") after setting the matrix again is " << lu.elementAt( i, j ) << ", expected " << a.get( i, j ) );
    Vec b = c.nums( a.n ), x = b; lu.solve( x.data() ); Vec r = a.mul( x ); for( unsigned i = 0; i < a.n; ++i ) EXPECT( close( r[i], b[i], a.growth*a.n*mx( x ) + mx( b ), 1e-10 ), "forget", "solution after setting the matrix again" );
    c.nontrivial( a.n >= 3 );
}
