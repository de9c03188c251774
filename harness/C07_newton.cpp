// C07 - what Newton's method reports is what happened
#include "nl_common.h"

typedef NewtonSolver<VD> NS; typedef NewtonSolverInterface<VD> NSI; typedef ErrorEstimator<VD> EE;

// a descent direction that passes everything through and remembers what it was told
struct Spy : NewtonDescentDirection<VD>
{
    std::shared_ptr<NewtonDescentDirection<VD>> d; std::vector<bool> resets, reports; std::vector<V> dirs, at, f; std::vector<unsigned> numbers;
    explicit Spy( std::shared_ptr<NewtonDescentDirection<VD>> d ) : d( d ) {
        this->onMappingChanged_0( [this] { this->d->setMapping( this->mapping() ); } );
        this->onJacobianProviderChanged_0( [this] { this->d->setJacobianProvider( this->jacobianProvider() ); } );
    }
    void reset( bool hard ) override { resets.push_back( hard ); d->reset( hard ); }
    bool hardResetMayHelp() const override { return d->hardResetMayHelp(); }
    void computeDescentDirection( V& dir, const V& x0, const V& f0, unsigned k ) override { d->computeDescentDirection( dir, x0, f0, k ); dirs.push_back( dir ); at.push_back( x0 ); f.push_back( f0 ); numbers.push_back( k ); }
    void reportSuccess( bool s ) override { reports.push_back( s ); d->reportSuccess( s ); }
};
struct Reg : NewtonRegularizationStrategy<VD>
{
    std::vector<bool> script; unsigned calls = 0; double par = 0;
    double regularizationParameter() const override { return par; }
    void setRegularizationParameter( double p ) override { par = p; }
    bool adjustRegularizationParameter() override { unsigned k = calls++; return k < script.size() && script[k]; }
};
struct Iter { unsigned number; Vec x, f; double alpha; };

static void history( pbt::Ctx& c, const System& sys, Vec x0, bool wild )
{
    unsigned n = sys.n; auto m = std::make_shared<SystemMapping>(); m->s = sys; NS s;
    std::string dn = c.pick( ddirNames() ); bool sp = c.flip(); auto spy = std::make_shared<Spy>( makeDdir( dn ) );
    s.setComponent( std::shared_ptr<NewtonDescentDirection<VD>>( spy ) ); s.setComponent( makeJp( sp ) ); s.setComponent( std::shared_ptr<VectorMapping<VD>>( m ) );
    auto ee = std::dynamic_pointer_cast<SimpleErrorEstimator<VD>>( s.iterationPerformer()->errorEstimator() );
    double at = 1e-6, rt = 1e-6, am = 1e20, rm = 10; unsigned limit = 100;
    if( c.chance( 1, 3 ) ) ee->setAbsoluteTolerance( at = c.pick( std::vector<double>{ 1e-2, 1e-9, 1e-12, 1 } ) );
    if( c.chance( 1, 3 ) ) ee->setRelativeTolerance( rt = c.pick( std::vector<double>{ 1e-2, 1e-9, 1e-13, 10 } ) );
    if( c.chance( 1, 4 ) ) ee->setAbsoluteMaxThreshold( am = c.pick( std::vector<double>{ 0, 10, 100 } ) );
    if( c.chance( 1, 3 ) ) ee->setRelativeMaxThreshold( rm = c.pick( std::vector<double>{ 0, 1, .3, 100 } ) );
    if( c.chance( 1, 2 ) ) s.setIterationCountLimit( limit = c.range( 0, 12 ) );
    EXPECT( s.iterationCountLimit() == limit && ee->absoluteTolerance() == at && ee->relativeTolerance() == rt && ee->absoluteMaxThreshold() == am && ee->relativeMaxThreshold() == rm, "settings", "settings read back differ from those set" );
    std::shared_ptr<Reg> reg; if( c.chance( 1, 4 ) ) { reg = std::make_shared<Reg>(); int k = c.range( 0, 8 ); for( int i = 0; i < k; ++i ) reg->script.push_back( c.chance( 2, 3 ) ); s.setComponent( std::shared_ptr<NewtonRegularizationStrategy<VD>>( reg ) ); 
        EXPECT( reg->errorEstimator() == s.iterationPerformer()->errorEstimator() && reg->newtonDescentDirection() == spy, "regularizer", "regularization strategy is not connected to the other components" ); }
    int stopAt = c.chance( 1, 5 ) ? c.range( 0, 6 ) : -1;
    c.log << sys.str() << " x0" << str( x0 ) << " ddir " << dn << ( sp ? " sparse" : " default" ) << " tol " << at << "," << rt << " max " << am << "," << rm << " limit " << limit << " stop " << stopAt << ( reg ? " regularized" : "" );
    std::vector<Iter> it; int others = 0; int errObs = 0; Vec eoX, eoF; double eoA = 0, eoR = 0;
    ee->errorObservers.add( [&]( const V& x, const V& f, const EE *e ) { ++errObs; eoX = toVec( x ); eoF = toVec( f ); eoA = e->absoluteError(); eoR = e->relativeError(); } );
    s.iterationObservers.add( [&]( unsigned k, const NSI *q ) { auto p = q->iterationPerformer(); it.push_back( { k, toVec( q->currentSolution() ), toVec( p->currentResidual() ), p->currentStepRatio() } ); return stopAt >= 0 && int( k ) == stopAt; } );
    s.iterationObservers.add( [&]( unsigned, const NSI* ) { ++others; return false; } );
    s.setInitialGuess( toV( x0 ) ); EXPECT( same( s.currentSolution(), x0 ), "guess", "currentSolution() is not the initial guess" );
    spy->resets.clear(); NSI::Status st;
    try { st = s.run(); } catch( const pbt::Failure& ) { throw; } catch( const std::exception& e ) { c.log << " exception: " << e.what(); c.label( "exception" ); if( !wild ) throw; c.nontrivial( it.size() >= 2 ); return; }
    c.log << " -> " << NSI::statusText( st ) << " after " << it.size();

    // Replay of the decisions from what was observed
    EXPECT( others == int( it.size() ), "observers", "not all iteration observers were called" );
    EXPECT( errObs == int( it.size() ), "observers", "error observers were called " << errObs << " times in " << it.size() << " iterations" );
    auto eq = []( const Vec& a, const Vec& b ) { for( size_t i = 0; i < a.size(); ++i ) if( !( a[i] == b[i] || ( std::isnan( a[i] ) && std::isnan( b[i] ) ) ) ) return false; return a.size() == b.size(); };
    size_t k = 0; unsigned rc = 0, pass = 0; NSI::Status want = NSI::IterationCountLimitExceeded; bool done = false; std::vector<bool> resets = { false };
    auto adjust = [&] { if( !reg ) return false; unsigned q = rc++; return q < reg->script.size() && bool( reg->script[q] ); };
    for( ; pass < 2 && !done; ++pass ) {
        Vec xp = x0; Vec fp = sys( x0 ); NSI::Status outcome = NSI::IterationCountLimitExceeded; if( pass == 1 ) resets.push_back( true );
        for( unsigned i = 0; i < limit && !done; ++i ) {
            EXPECT( k < it.size(), "premature-end", "the run ended with '" << NSI::statusText( st ) << "' after " << it.size() << " iterations; nothing called for that" );
            const Iter& q = it[k];
            EXPECT( q.number == k, "numbering", "iteration observer received number " << q.number << " in iteration " << k );
            EXPECT( eq( toVec( spy->at[k] ), xp ) && eq( toVec( spy->f[k] ), fp ) && spy->numbers[k] == i, "direction-arguments", "direction of iteration " << k << " was computed for " << str( toVec( spy->at[k] ) ) << ", residual " << str( toVec( spy->f[k] ) ) << ", number " << spy->numbers[k] << "; expected " << str( xp ) << str( fp ) << i );
            Vec xn = xp; for( unsigned j = 0; j < n; ++j ) if( q.alpha != 0 ) xn[j] += spy->dirs[k][j]*q.alpha;
            for( unsigned j = 0; j < n; ++j ) EXPECT( close( q.x[j], xn[j], std::fabs( xn[j] ) + std::fabs( xp[j] ), 1e-14 ), "step", "solution after iteration " << k << " is " << str( q.x ) << ", expected " << str( xn ) << " (previous " << str( xp ) << ", step ratio " << q.alpha << ", direction " << str( toVec( spy->dirs[k] ) ) << ")" );
            Vec fx = sys( q.x ); EXPECT( eq( fx, q.f ), "residual", "residual reported after iteration " << k << " is " << str( q.f ) << ", that of the solution " << str( q.x ) << " is " << str( fx ) );
            double np = 0, nn = 0; for( double v : fp ) np += v*v; for( double v : q.f ) nn += v*v;
            EXPECT( q.alpha == 0 || nn < np, "monotone", "iteration " << k << " with step ratio " << q.alpha << " took the squared residual from " << np << " to " << nn );
            Vec dx( n ); for( unsigned j = 0; j < n; ++j ) dx[j] = q.x[j] - xp[j];
            double ae = norm( q.f ), nx = norm( xp ), re = nx > 0 ? norm( dx )/nx : 0;
            EE::Status es = ae <= at && re <= rt ? EE::Converged : ( am > 0 && ae >= am ) || ( rm > 0 && re >= rm ) || q.alpha == 0 ? EE::Diverged : EE::ContinueIterations;
            xp = q.x; fp = q.f; ++k;
            if( stopAt >= 0 && int( k ) - 1 == stopAt ) { want = NSI::Terminated; done = true; break; }
            bool adj = adjust();
            if( es == EE::Converged && !adj ) { want = NSI::Converged; done = true; }
            else if( es == EE::Diverged && !adj ) { outcome = NSI::Diverged; break; }
        }
        if( done ) break;
        want = outcome;
        if( pass == 1 || !spy->hardResetMayHelp() ) { done = true; break; }
    }
    EXPECT( k == it.size(), "overrun", "the run went on after iteration " << k << ", where it should have ended with '" << NSI::statusText( want ) << "' (" << it.size() << " iterations, '" << NSI::statusText( st ) << "')" );
    EXPECT( st == want, "status", "status is '" << NSI::statusText( st ) << "', expected '" << NSI::statusText( want ) << "' after " << it.size() << " iterations" );
    if( k ) { EXPECT( eq( toVec( s.currentSolution() ), it.back().x ) || st == NSI::IterationCountLimitExceeded, "solution", "solution after the run is not that of the last iteration" );
        EXPECT( eq( eoX, it.back().x ) && eq( eoF, it.back().f ), "observers", "error observers did not see the last solution" ); }
    if( st == NSI::Converged ) {
        Vec x = toVec( s.currentSolution() ), f = sys( x ); for( double v : x ) EXPECT( std::isfinite( v ), "converged", "converged to " << str( x ) );
        EXPECT( norm( f ) <= at, "converged", "reported as converged with residual " << norm( f ) << ", tolerance " << at );
        EXPECT( eoA == norm( f ) && eoR <= rt, "converged", "errors reported: " << eoA << ", " << eoR );
    }
    EXPECT( !reg || reg->calls == rc, "regularizer", "regularization adjusted " << reg->calls << " times, expected " << rc );
    EXPECT( spy->resets == resets, "reset", "descent direction was reset " << spy->resets.size() << " times, expected " << resets.size() << " (hard resets only after a failed attempt)" );
    if( st == NSI::Terminated ) EXPECT( spy->reports.empty() || pass == 1, "report", "success or failure reported for a terminated run" );
    else EXPECT( !spy->reports.empty() && spy->reports.back() == ( st == NSI::Converged ), "report", "outcome is not reported to the descent direction" );
    c.nontrivial( it.size() >= 3 ); c.label( NSI::statusText( st ) ); c.label( "second attempt", resets.size() == 2 ); c.label( "second attempt converged", resets.size() == 2 && st == NSI::Converged );
    bool trunc = false, opp = false; for( auto& q : it ) { trunc = trunc || ( q.alpha > 0 && q.alpha < 1 ); opp = opp || q.alpha < 0; } c.label( "truncated step", trunc ); c.label( "opposite step", opp );
}

PBT( wild, 60000, 600000, "Newton's method on systems that may have no root, singular derivatives or non-finite values, for every descent direction and Jacobian provider, random tolerances, thresholds, iteration limits, "
     "observers that stop the run, regularization strategies that ask to go on; every iteration and the final status are predicted from the observed steps; non-trivial: at least three iterations" )
{
    System s = genWild( c ); Vec x0( s.n ); for( auto& v : x0 ) v = c.chance( 1, 3 ) ? 0 : c.real( -3, 3 );
    history( c, s, x0, true );
}
PBT( solvable, 30000, 300000, "the same on systems with a root and a dominant linear part; no exceptions; non-trivial: at least three iterations" )
{
    Benign b = genBenign( c, 6, c.pick( std::vector<double>{ .1, .5, 0 } ) ); Vec x0 = b.root; double d = c.pick( std::vector<double>{ .1, 1, 10 } ); for( auto& v : x0 ) v += c.real( -d, d );
    history( c, b.s, x0, false );
}

// ---------------------------------------------------------------------------------------
PBT( line_search, 60000, 600000, "line search along a random direction for a random system, with a random limit of truncations; oracle: the first of the ratios 1, 1/2, 1/4... that takes the squared residual below 0.8 of the initial one, otherwise the best of those that reduce it, "
     "otherwise the same for -1, -1/2..., otherwise zero; residual delivered for the ratio returned; non-trivial: the full step was not taken" )
{
    System s = c.flip() ? genWild( c ) : genBenign( c, 4 ).s; unsigned n = s.n; Vec x0 = c.nums( n, 3 ), dir = c.nums( n, 3 ); if( c.flip() ) for( auto& v : dir ) v *= 10;
    auto m = std::make_shared<SystemMapping>(); m->s = s; SimpleNewtonLinearSearch<VD> ls; ls.setMapping( m ); unsigned lim = 10; if( c.chance( 1, 3 ) ) ls.setMaxStepTruncations( lim = c.range( 0, 5 ) ); EXPECT( ls.maxStepTruncations() == lim, "limit", "maxStepTruncations()" );
    Vec f0 = s( x0 ); c.log << s.str() << " x0" << str( x0 ) << " dir" << str( dir ) << " limit " << lim;
    auto n2 = []( const Vec& v ) { double r = 0; for( double q : v ) r += q*q; return r; };
    double want = 0, best = 1; bool found = false; std::vector<double> tried;
    for( double sgn : { 1., -1. } ) {
        double a = sgn;
        for( unsigned i = 0; i < lim && !found; ++i, a *= .5 ) {
            Vec x = x0; for( unsigned j = 0; j < n; ++j ) x[j] += dir[j]*a;
            double r = n2( s( x ) )/n2( f0 ); tried.push_back( a ); if( close( r, .8, 1, 1e-12 ) || close( r, 1, 1, 1e-12 ) ) c.discard(); if( best > r ) { best = r; want = a; } if( best < .8 ) found = true;
        }
        if( best < 1 ) break;
    }
    std::vector<double> seen; ls.lineSearchObservers.add( [&]( unsigned k, double a, const V& d, const V& x, const V& f, const V& fa ) {
        EXPECT( k == seen.size() && same( d, dir ) && same( x, x0 ), "line-search-observers", "arguments of the observer" ); (void)f; Vec xa = x0; for( unsigned j = 0; j < n; ++j ) xa[j] += dir[j]*a; Vec e = s( xa ); for( unsigned j = 0; j < n; ++j ) EXPECT( close( fa[j], e[j], std::fabs( e[j] ), 1e-12 ), "line-search-observers", "residual passed to the observer" ); seen.push_back( a ); } );
    V res( n ); for( unsigned j = 0; j < n; ++j ) res[j] = -77; bool wantRes = c.chance( 3, 4 );
    double a = ls.lineSearch( toV( dir ), toV( x0 ), toV( f0 ), wantRes ? &res : nullptr );
    EXPECT( a == want, "line-search", "step ratio " << a << ", expected " << want ); EXPECT( seen == tried, "line-search", "ratios tried: " << str( seen ) << ", expected " << str( tried ) );
    if( a != 0 && wantRes ) { Vec x = x0; for( unsigned j = 0; j < n; ++j ) x[j] += dir[j]*a; Vec e = s( x ); for( unsigned j = 0; j < n; ++j ) EXPECT( close( res[j], e[j], std::fabs( e[j] ), 1e-12 ), "line-search", "residual " << str( toVec( res ) ) << " is not the one at the point chosen, " << str( e ) ); }
    if( a == 0 && wantRes ) for( unsigned j = 0; j < n; ++j ) EXPECT( res[j] == -77, "line-search", "residual was changed though no step was found" );
    c.nontrivial( a != 1 ); c.label( "zero", a == 0 ); c.label( "negative", a < 0 ); c.label( "not the last tried", a != 0 && a != tried.back() );
}

// ---------------------------------------------------------------------------------------
PBT( changed_system, 20000, 200000, "one solver runs several times; between the runs the system changes (also in place, without another mapping object), and the guess set, softly or hard, is the solution just found, one beside it, or another one; "
     "the residuals that directions start from and those reported must be those of the present system; non-trivial: three runs, one with an unchanged guess" )
{
    Benign b = genBenign( c, 4, c.pick( std::vector<double>{ .1, .5, 0 } ) ); unsigned n = b.s.n; auto m = std::make_shared<SystemMapping>(); m->s = b.s; NS s;
    std::string dn = c.pick( ddirNames() ); bool sp = c.flip(); auto spy = std::make_shared<Spy>( makeDdir( dn ) );
    s.setComponent( std::shared_ptr<NewtonDescentDirection<VD>>( spy ) ); s.setComponent( makeJp( sp ) ); s.setComponent( std::shared_ptr<VectorMapping<VD>>( m ) );
    c.log << b.s.str() << " ddir " << dn << ( sp ? " sparse" : " default" ); int it = 0;
    auto eq = []( const Vec& a, const Vec& b ) { for( size_t i = 0; i < a.size(); ++i ) if( !( a[i] == b[i] || ( std::isnan( a[i] ) && std::isnan( b[i] ) ) ) ) return false; return a.size() == b.size(); };
    s.iterationObservers.add( [&]( unsigned, const NSI *q ) {
        ++it; Vec x = toVec( q->currentSolution() ), f = toVec( q->iterationPerformer()->currentResidual() ), e = m->s( x );
        EXPECT( eq( f, e ), "residual", "residual reported is " << str( f ) << ", that of the solution " << str( x ) << " is " << str( e ) ); return false; } );
    int runs = c.range( 2, 5 ); bool sameGuess = false; std::vector<double> shift( n );
    for( int r = 0; r < runs; ++r ) {
        int kind = r ? c.pickw( { 3, 2, 1 } ) : 2; bool change = r && c.chance( 3, 4 ), hard = c.chance( 1, 3 ) || !r;
        if( change ) {
            if( c.chance( 1, 4 ) ) { auto q = std::make_shared<SystemMapping>(); q->s = m->s; m = q; s.setComponent( std::shared_ptr<VectorMapping<VD>>( m ) ); c.log << "; another mapping"; }
            for( unsigned i = 0; i < n; ++i ) if( c.flip() ) { double d = c.num( 2 ); m->s.b[i] += d; if( c.chance( 1, 3 ) ) m->s.A[i][i] += c.unit(); } c.log << "; changed to " << m->s.str();
        }
        Vec g( n ); if( kind < 2 ) g = toVec( s.currentSolution() ); if( kind == 1 ) { double q = c.pick( std::vector<double>{ 1e-14, 1e-9, 1e-3 } ); for( auto& v : g ) v += c.real( -q, q ); } if( kind == 2 ) for( auto& v : g ) v = c.real( -3, 3 );
        bool fin = true; for( double v : g ) fin = fin && std::isfinite( v ); if( !fin ) break;
        sameGuess = sameGuess || ( kind == 0 && change ); c.log << ( hard ? "; hard " : "; soft " ) << str( g );
        s.setInitialGuess( toV( g ), hard ); size_t at = spy->at.size(); EXPECT( same( s.currentSolution(), g ), "guess", "currentSolution() is not the initial guess" );
        Vec f0 = toVec( s.iterationPerformer()->currentResidual() ); EXPECT( eq( f0, m->s( g ) ), "residual", "residual at the guess is " << str( f0 ) << ", expected " << str( m->s( g ) ) );
        NSI::Status st; try { st = s.run(); } catch( const pbt::Failure& ) { throw; } catch( const std::exception& e ) { c.log << " exception " << e.what(); return; }
        if( spy->at.size() > at ) EXPECT( eq( toVec( spy->at[at] ), g ) && eq( toVec( spy->f[at] ), m->s( g ) ), "direction-arguments", "the first direction was computed for " << str( toVec( spy->at[at] ) ) << ", residual " << str( toVec( spy->f[at] ) ) );
        Vec x = toVec( s.currentSolution() ); if( st == NSI::Converged ) { double e = norm( m->s( x ) ); EXPECT( e <= 1e-6, "converged", "reported as converged with residual " << e ); }
        c.log << " -> " << NSI::statusText( st );
    }
    c.nontrivial( runs >= 3 && sameGuess && it >= 3 ); c.label( "same guess", sameGuess );
}
