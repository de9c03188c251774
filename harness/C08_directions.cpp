// C08 - descent directions: which Jacobian they solve with, and that they take the solver to the root
#include "nl_common.h"

typedef NewtonSolver<VD> NS; typedef NewtonSolverInterface<VD> NSI;
typedef std::vector<Vec> Mat;

static Vec solveDense( Mat a, Vec b )   // with pivoting; reference
{
    size_t n = b.size();
    for( size_t k = 0; k < n; ++k ) {
        size_t p = k; for( size_t i = k; i < n; ++i ) if( std::fabs( a[i][k] ) > std::fabs( a[p][k] ) ) p = i;
        std::swap( a[p], a[k] ); std::swap( b[p], b[k] );
        for( size_t i = k+1; i < n; ++i ) { double f = a[i][k]/a[k][k]; if( f == 0 ) continue; for( size_t j = k; j < n; ++j ) a[i][j] -= f*a[k][j]; b[i] -= f*b[k]; }
    }
    for( size_t k = n; k-- > 0; ) { for( size_t j = k+1; j < n; ++j ) b[k] -= a[k][j]*b[j]; b[k] /= a[k][k]; }
    return b;
}
template< class Mx > static Mat dense( const Mx& m, unsigned n ) { Mat r( n, Vec( n, 0. ) ); for( const auto& e : m ) r[e.first.first][e.first.second] = e.second; return r; }
static std::string mstr( const Mat& m ) { std::string s; for( auto& r : m ) s += str( r ); return s; }
static Vec mulM( const Mat& m, const Vec& x ) { Vec y( x.size(), 0. ); for( size_t i = 0; i < y.size(); ++i ) for( size_t j = 0; j < y.size(); ++j ) y[i] += m[i][j]*x[j]; return y; }

struct HartRef   // factors, profile and the row-wise least change that satisfies the secant condition
{
    unsigned n = 0; Mat L, U; std::vector<unsigned> p, q; bool poor = false;
    void set( const Mat& a )
    {
        n = a.size(); L.assign( n, Vec( n, 0. ) ); U = L; p.assign( n, n ); q.assign( n, n ); poor = false;
        for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) if( a[i][j] != 0 ) { p[i] = std::min( p[i], j ); q[j] = std::min( q[j], i ); }
        for( unsigned i = 0; i < n; ++i ) { L[i][i] = 1; for( unsigned j = 0; j < n; ++j ) { double s = a[i][j]; for( unsigned k = 0; k < std::min( i, j ); ++k ) s -= L[i][k]*U[k][j]; if( i > j ) L[i][j] = s/U[j][j]; else U[i][j] = s; } }
    }
    void update( const Vec& s, const Vec& y )
    {
        Vec r( n, 0. );
        for( unsigned i = 0; i < n; ++i ) {
            double beta = y[i], aa = 0, ss = 0; for( double v : s ) ss += v*v;
            for( unsigned k = p[i]; k < i; ++k ) { beta -= L[i][k]*r[k]; aa += r[k]*r[k]; }
            for( unsigned k = i; k < n; ++k ) if( i >= q[k] ) { beta -= U[i][k]*s[k]; aa += s[k]*s[k]; }
            if( aa < 1e-6*ss ) poor = true; else { for( unsigned k = p[i]; k < i; ++k ) L[i][k] += r[k]*beta/aa; for( unsigned k = i; k < n; ++k ) if( i >= q[k] ) U[i][k] += s[k]*beta/aa; }
            for( unsigned k = i; k < n; ++k ) if( i >= q[k] ) r[i] += U[i][k]*s[k];
        }
        for( unsigned i = 0; i < n; ++i ) if( std::fabs( U[i][i] ) < .1 ) poor = true;
    }
    Mat product() const { Mat a( n, Vec( n, 0. ) ); for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) for( unsigned k = 0; k <= std::min( i, j ); ++k ) a[i][j] += L[i][k]*U[k][j]; return a; }
};

PBT( strategies, 60000, 600000, "a descent direction and Jacobian provider are taken through a history of solves (hard and soft resets, several points each, success or failure reported); at every point the Jacobian in use must be the one its strategy prescribes "
     "(current, first since the hard reset, secant update, pattern-restricted secant update, LU secant update, lazily replaced), and the direction must solve J d = -f; non-trivial: three points in one solve or a soft reset" )
{
    Benign b = genBenign( c, 6, c.pick( std::vector<double>{ .1, .5, 0 } ) ); auto m = std::make_shared<SystemMapping>(); m->s = b.s; unsigned n = b.s.n;
    std::string name = c.pick( ddirNames() ); double u = 1; // unit of the residual
    if( name != "hart" && c.chance( 1, 3 ) ) { u = std::ldexp( 1., c.range( -60, 60 ) ); for( unsigned i = 0; i < n; ++i ) { for( auto& v : b.s.A[i] ) v *= u; b.s.w[i] *= u; b.s.v[i] *= u; b.s.b[i] *= u; } m->s = b.s; }
    double dmin = 1;   // length of the shortest step
    bool sp = c.flip(); auto d = makeDdir( name ); unsigned lazy = 10;
    if( name == "lazy-fake-broyden" ) { EXPECT( d->parameters()["lazy_iterations"].value<unsigned>() == 10, "parameters", "lazy_iterations" ); if( c.chance( 2, 3 ) ) { lazy = c.range( 0, 3 ); OptionalParameters::Parameters p; p["lazy_iterations"] = lazy; d->setParameters( p ); } }
    if( c.flip() ) { d->setJacobianProvider( makeJp( sp ) ); d->setMapping( m ); } else { d->setMapping( m ); d->setJacobianProvider( makeJp( sp ) ); }
    EXPECT( d->jacobianProvider()->mapping() == m, "wiring", "the Jacobian provider does not know the mapping" );
    c.log << name << ( sp ? " sparse " : " default " ) << b.s.str() << " lazy " << lazy;
    Mat seen, refJ, dJ; bool have = false, refreshed = false; int nJ = 0, pre = 0, post = 0, open = 0; HartRef hart; bool poor = false;
    d->jacobianObservers.add( [&]( const F& J, const V&, const V& ) { seen = dense( J, n ); ++nJ; } );
    d->jacobianRefreshObservers.add( [&]( bool start ) { if( start ) { ++open; refreshed = true; } else --open; } );
    d->ddirPreObservers.add( [&] { ++pre; } ); V lastDir; d->ddirPostObservers.add( [&]( const V& q ) { ++post; lastDir = q; } );
    enum { Leave, Update, Recompute } action = Recompute; int pairs = 0;   // lazy: update pairs collected
    auto fdOk = [&]( const Mat& J, const Vec& x, const char *what ) { auto A = b.s.jac( x ); for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) EXPECT( close( J[i][j], A[i][j], u + std::fabs( A[i][j] ), 1e-4 ), "jacobian", what << ": element (" << i << "," << j << ") of the Jacobian is " << J[i][j] << ", derivative at " << str( x ) << " is " << A[i][j] ); };
    auto equal = [&]( const Mat& J, const Mat& R, const char *what ) { double sc = u; for( auto& r : R ) sc = std::max( sc, norm( r ) ); for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) EXPECT( close( J[i][j], R[i][j], sc, 1e-8 + 2e-14/dmin ), "jacobian", what << ": element (" << i << "," << j << ") of the Jacobian is " << J[i][j] << ", expected " << R[i][j] << "; all " << mstr( J ) ); };
    int solves = c.range( 1, 4 ); bool maxPts = false, soft = false;
    for( int sv = 0; sv < solves; ++sv ) {
        bool hard = sv == 0 ? c.flip() : c.chance( 1, 3 ); d->reset( hard ); c.log << ( hard ? " | hard:" : " | soft:" ); if( sv && !hard ) soft = true;
        if( hard ) { have = false; action = Recompute; }
        int pts = c.range( 1, 4 ); Vec x = b.root, xp, fp; for( auto& v : x ) v += c.real( -1, 1 );
        for( int k = 0; k < pts; ++k ) {
            if( k ) { double q = c.chance( 1, 3 ) ? c.logreal( 1e-8, .1 ) : 1; dmin = std::min( dmin, .1*q ); for( unsigned i = 0; i < n; ++i ) x[i] = xp[i] + q*c.real( .1, .5 )*( c.flip() ? -1 : 1 ); }
            Vec f = b.s( x ); if( ( name == "simple" || name == "const" ) && c.chance( 1, 5 ) ) { double q = std::ldexp( 1., c.range( -100, 100 ) ); for( auto& v : f ) v = c.num( 1 )*q; } c.log << " " << str( x ); nJ = pre = post = 0; refreshed = false; int calls = m->calls;
            V dir; if( c.flip() ) dir = d->computeDescentDirection( toV( x ), toV( f ), k ); else { dir.resize( c.range( 0, 3 ) ); d->computeDescentDirection( dir, toV( x ), toV( f ), k ); }
            EXPECT( nJ == 1 && pre == 1 && post == 1 && open == 0, "observers", "observers called " << nJ << ", " << pre << ", " << post << " times" ); EXPECT( same( lastDir, toVec( dir ) ), "observers", "direction passed to the observers" );
            EXPECT( refreshed == ( m->calls > calls ), "observers", "Jacobian refresh observers " << ( refreshed ? "" : "not " ) << "called, but the mapping was evaluated " << m->calls - calls << " times" );
            // The Jacobian in use
            bool recompute = name == "simple" || ( name == "lazy-fake-broyden" ? k == 0 && ( !have || action == Recompute ) : !have );
            EXPECT( refreshed == recompute, "refresh", name << ( refreshed ? " recomputed" : " did not recompute" ) << " the Jacobian at point " << k << " of solve " << sv );
            if( recompute ) { fdOk( seen, x, name.c_str() ); refJ = seen; have = true; pairs = 0; dJ.assign( n, Vec( n, 0. ) ); hart.set( refJ ); if( name == "hart" ) fdOk( hart.product(), x, "hart" ); }
            else {
                Vec dx( n ), df( n ); double dd = 0; if( k ) { for( unsigned i = 0; i < n; ++i ) { dx[i] = x[i] - xp[i]; df[i] = f[i] - fp[i]; dd += dx[i]*dx[i]; } }
                if( k && name == "broyden" ) { Vec q = mulM( refJ, dx ); for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) refJ[i][j] += ( df[i] - q[i] )*dx[j]/dd; Vec z = mulM( seen, dx ); for( unsigned i = 0; i < n; ++i ) EXPECT( close( z[i], df[i], 10*n*u, 1e-9 ), "secant", "secant condition: row " << i << " gives " << z[i] << ", expected " << df[i] ); }
                if( k && name == "fake-broyden" ) { Vec q = mulM( refJ, dx ); for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) if( refJ[i][j] != 0 ) refJ[i][j] += ( df[i] - q[i] )*dx[j]/dd; }
                if( k && name == "hart" ) { hart.update( dx, df ); poor = poor || hart.poor; refJ = hart.product(); }
                if( name == "lazy-fake-broyden" ) {
                    if( k ) { Vec q = mulM( refJ, dx ); for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) if( refJ[i][j] != 0 ) dJ[i][j] += ( df[i] - q[i] )*dx[j]/dd; ++pairs; }
                    else if( action == Update ) {
                        if( pairs <= 1 ) { for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) refJ[i][j] += dJ[i][j]; }
                        else { for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) EXPECT( std::isfinite( seen[i][j] ) && ( refJ[i][j] != 0 || seen[i][j] == 0 ), "pattern", "element (" << i << "," << j << ") outside of the pattern is " << seen[i][j] ); refJ = seen; }
                        pairs = 0; dJ.assign( n, Vec( n, 0. ) );
                    }
                }
                if( poor ) c.discard(); equal( seen, refJ, name.c_str() );
            }
            // The direction
            double cond = 1; for( unsigned i = 0; i < n; ++i ) { double s = 0; for( unsigned j = 0; j < n; ++j ) if( j != i ) s += std::fabs( seen[i][j] ); if( std::fabs( seen[i][i] ) < 1.05*s + .05*u ) cond = 0; }
            Vec y = mulM( seen, toVec( dir ) ); 
            if( cond ) for( unsigned i = 0; i < n; ++i ) EXPECT( close( y[i], -f[i], norm( f ), 1e-8 ), "direction", "J d = " << y[i] << " in row " << i << ", expected " << -f[i] << "; d " << str( toVec( dir ) ) << " J " << mstr( seen ) );
            xp = x; fp = f;
        }
        if( pts >= 3 ) maxPts = true;
        bool ok = c.chance( 3, 4 ); if( c.chance( 9, 10 ) ) { d->reportSuccess( ok ); c.log << ( ok ? " success" : " failure" ); action = ok ? ( pts <= int( lazy ) ? Leave : Update ) : Recompute; } 
    }
    c.nontrivial( maxPts || soft ); c.label( name );
}

// ---------------------------------------------------------------------------------------
static void judge( pbt::Ctx& c, const char *key, NS& s, NSI::Status st, const Benign& b, double tol )
{
    EXPECT( st == NSI::Converged, key, "status '" << NSI::statusText( st ) << "' for " << b.s.str() );
    Vec x = toVec( s.currentSolution() ); Vec f = b.s( x ); EXPECT( norm( f ) <= tol, key, "residual " << norm( f ) );
    for( unsigned i = 0; i < b.s.n; ++i ) EXPECT( close( x[i], b.root[i], 1, 4*tol + 1e-12 ), key, "solution " << str( x ) << ", root " << str( b.root ) );
}
PBT( convergence, 40000, 400000, "systems with a dominant linear part and a known root, solved with every descent direction and provider from a nearby guess, then a sequence of nearby systems with the same pattern solved with soft or hard restarts; all must converge to the root, "
     "linear systems at once, exact Jacobians quadratically; non-trivial: three systems" )
{
    double eps = c.pick( std::vector<double>{ .1, .02, 0 } ); Benign b = genBenign( c, 8, eps ); NS s; std::string name = c.pick( ddirNames() ); bool sp = c.flip();
    s.setComponent( makeDdir( name ) ); s.setComponent( makeJp( sp ) ); auto m = std::make_shared<SystemMapping>(); m->s = b.s; s.setComponent( std::shared_ptr<VectorMapping<VD>>( m ) );
    double tol = 1e-6; auto ee = s.iterationPerformer()->errorEstimator(); if( c.flip() ) { tol = c.pick( std::vector<double>{ 1e-10, 1e-3 } ); if( name == "hart" && tol < 1e-6 ) tol = 1e-4;   // its row-wise update is not immune to rounding errors of rows that have converged early
        ee->setAbsoluteTolerance( tol ); ee->setRelativeTolerance( tol ); }
    c.log << name << ( sp ? " sparse" : " default" ) << " tol " << tol; int k = c.range( 1, 4 ); System orig = b.s;
    for( int i = 0; i < k; ++i ) {
        if( i ) { b = genBenign( c, 0, eps, &orig ); m->s = b.s; } 
        Vec x0 = b.root; for( auto& v : x0 ) v += c.real( -.3, .3 ); bool hard = i == 0 || c.chance( 1, 4 ); c.log << ( hard ? " hard " : " soft " ) << b.s.str() << " from " << str( x0 );
        int iters = 0; auto obs = cxx::makeScopedIdentifiedElement( s.iterationObservers, [&]( unsigned, const NSI* ) { ++iters; return false; } );
        if( hard ) s.setInitialGuess( toV( x0 ) ); else s.setInitialGuess( toV( x0 ), false );
        auto st = s.run(); judge( c, "convergence", s, st, b, tol );
        int most = name == "simple" ? ( eps == 0 ? 3 : 8 ) : !hard ? 1000 : eps == 0 ? 3 : tol < 1e-9 ? 35 : 20;
        EXPECT( iters <= most, "speed", iters << " iterations with " << name << ", expected at most " << most );
        c.label( name + " " + std::to_string( iters ) );
        if( c.chance( 1, 4 ) ) { iters = 0; st = s.run(); judge( c, "rerun", s, st, b, tol ); EXPECT( iters <= 3, "rerun", iters << " iterations from the solution" ); }   // goes on from the solution
    }
    c.nontrivial( k >= 3 );
}
