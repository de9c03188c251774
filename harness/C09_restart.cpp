// C09 - a hard reset makes a Newton solver equivalent to a new one; a soft one never loses the solution
#include "nl_common.h"

typedef NewtonSolver<VD> NS; typedef NewtonSolverInterface<VD> NSI;
struct Trace { std::vector<Vec> x, f; std::vector<double> alpha; int status; std::string error; int calls; };

static std::shared_ptr<NS> makeSolver( const std::string& d, bool sp, int tol )
{
    auto s = std::make_shared<NS>(); s->setComponent( makeDdir( d ) ); s->setComponent( makeJp( sp ) );
    if( tol ) { auto ee = s->iterationPerformer()->errorEstimator(); ee->setAbsoluteTolerance( 1e-9 ); ee->setRelativeTolerance( 1e-4 ); s->setIterationCountLimit( 12 ); }
    return s;
}
static Trace runIt( NS& s, const Vec& x0, const bool *hard, int stopAt = -1 )
{
    Trace t; auto obs = cxx::makeScopedIdentifiedElement( s.iterationObservers, [&]( unsigned k, const NSI *q ) { t.x.push_back( toVec( q->currentSolution() ) ); t.f.push_back( toVec( q->iterationPerformer()->currentResidual() ) ); t.alpha.push_back( q->iterationPerformer()->currentStepRatio() ); return int( k ) == stopAt; } );
    t.status = -1;
    try { if( hard ) s.setInitialGuess( toV( x0 ), *hard ); else s.setInitialGuess( toV( x0 ) ); t.status = s.run(); t.x.push_back( toVec( s.currentSolution() ) ); }
    catch( const pbt::Failure& ) { throw; } catch( const std::exception& e ) { t.error = e.what(); }
    return t;
}
static bool sameV( const Vec& a, const Vec& b ) { if( a.size() != b.size() ) return false; for( size_t i = 0; i < a.size(); ++i ) if( !( a[i] == b[i] || ( std::isnan( a[i] ) && std::isnan( b[i] ) ) ) ) return false; return true; }
static std::string diff( const Trace& a, const Trace& b )
{
    for( size_t k = 0; k < std::min( a.x.size(), b.x.size() ); ++k ) if( !sameV( a.x[k], b.x[k] ) ) return "iteration " + std::to_string( k ) + ": solution " + str( a.x[k] ) + ", from a new solver " + str( b.x[k] );
    for( size_t k = 0; k < std::min( a.f.size(), b.f.size() ); ++k ) if( !sameV( a.f[k], b.f[k] ) ) return "iteration " + std::to_string( k ) + ": residual " + str( a.f[k] ) + ", from a new solver " + str( b.f[k] );
    if( a.alpha != b.alpha ) return "step ratios " + str( a.alpha ) + ", from a new solver " + str( b.alpha );
    if( a.status != b.status || a.error != b.error || a.x.size() != b.x.size() ) return "status " + std::to_string( a.status ) + " " + a.error + " after " + std::to_string( a.x.size() ) + ", from a new solver " + std::to_string( b.status ) + " " + b.error + " after " + std::to_string( b.x.size() );
    return "";
}

PBT( hard_equals_fresh, 40000, 400000, "a Newton solver (any direction, any provider) goes through a history of runs on benign and hostile systems of various sizes and patterns (converged, diverged, stopped by an observer, ended by an exception, out of iterations), with soft and hard restarts, "
     "trimmer changes in between, then is hard reset on one more system: its trajectory must be bitwise that of a new solver; non-trivial: at least one earlier run and three iterations in the last" )
{
    std::string d = c.pick( ddirNames() ); bool sp = c.flip(); int tol = c.range( 0, 1 ); auto s = makeSolver( d, sp, tol ); c.log << d << ( sp ? " sparse" : " default" ) << " tol " << tol;
    auto jt = std::make_shared<JacobianWidthBasedTrimmer<VD>>(); unsigned w = 0; bool trim = false;
    auto sys = [&]() { return c.flip() ? genWild( c ) : genBenign( c, 4, .3 ).s; };
    auto guess = [&]( unsigned n ) { Vec x( n ); for( auto& v : x ) v = c.chance( 1, 4 ) ? 0 : c.real( -3, 3 ); return x; };
    int runs = c.range( 1, 4 ); std::shared_ptr<SystemMapping> m; std::set<int> seen;
    for( int i = 0; i < runs; ++i ) {
        bool hard = true; if( !m || c.chance( 2, 3 ) ) { m = std::make_shared<SystemMapping>(); m->s = sys(); s->setComponent( std::shared_ptr<VectorMapping<VD>>( m ) ); } else hard = c.flip();
        if( c.chance( 1, 5 ) ) { trim = !trim; w = c.range( 1, 2 ); OptionalParameters::Parameters p; p["width"] = w; jt->setParameters( p ); s->setComponent( trim ? std::shared_ptr<JacobianTrimmer<VD>>( jt ) : nullptr ); hard = true; }
        Vec x0 = guess( m->s.n ); Trace t = runIt( *s, x0, &hard, c.chance( 1, 4 ) ? c.range( 0, 3 ) : -1 ); seen.insert( t.status );
        c.log << ( hard ? " | hard " : " | soft " ) << m->s.str() << " from " << str( x0 ) << ( trim ? " trimmed" : "" ) << " -> " << t.status << " " << t.error;
    }
    auto m2 = std::make_shared<SystemMapping>(); m2->s = c.chance( 1, 3 ) ? m->s : sys(); Vec x0 = guess( m2->s.n ); int stop = c.chance( 1, 8 ) ? c.range( 0, 3 ) : -1;
    s->setComponent( std::shared_ptr<VectorMapping<VD>>( m2 ) ); bool h = true; Trace a = runIt( *s, x0, c.flip() ? &h : nullptr, stop );   // hard is the default
    auto f = makeSolver( d, sp, tol ); if( trim ) f->setComponent( std::shared_ptr<JacobianTrimmer<VD>>( jt ) ); f->setComponent( std::shared_ptr<VectorMapping<VD>>( m2 ) ); Trace b = runIt( *f, x0, &h, stop );
    c.log << " | finally " << m2->s.str() << " from " << str( x0 ) << " -> " << b.status << " " << b.error;
    std::string df = diff( a, b ); EXPECT( df.empty(), "history", df );
    c.nontrivial( b.x.size() >= 3 ); c.label( d ); for( int q : seen ) c.label( "earlier run: " + ( q < 0 ? std::string( "exception" ) : NSI::statusText( NSI::Status( q ) ) ) );
}

PBT( soft_never_worse, 30000, 300000, "a solver that has run on other systems with the same pattern (nearby or far away, also without roots) is restarted softly: whenever a new solver converges on this system, it does, too, and it does not ask for more iterations than the limit per attempt; "
     "non-trivial: the stale Jacobian made the first attempt differ from that of a new solver" )
{
    std::string d = c.pick( ddirNames() ); bool sp = c.flip(); c.log << d << ( sp ? " sparse" : " default" ); Benign b0 = genBenign( c, 4, .3 ); auto s = makeSolver( d, sp, 0 ); auto m = std::make_shared<SystemMapping>(); m->s = b0.s; s->setComponent( std::shared_ptr<VectorMapping<VD>>( m ) );
    int runs = c.range( 1, 3 );
    auto guess = [&]( unsigned n ) { Vec x( n ); for( auto& v : x ) v = c.real( -3, 3 ); return x; };
    for( int i = 0; i < runs; ++i ) { Vec x0 = guess( b0.s.n ); bool hard = i == 0; Trace t = runIt( *s, x0, &hard, c.chance( 1, 5 ) ? 1 : -1 ); c.log << " | " << m->s.str() << " from " << str( x0 ) << " -> " << t.status; if( !t.error.empty() ) c.discard();
        // another system with the same pattern: nearby, mirrored, or much stiffer
        double q = c.pick( std::vector<double>{ 1, 1, -1, .01, 100 } ); Benign nb = genBenign( c, 0, .3, &b0.s ); m->s = nb.s; for( auto& r : m->s.A ) for( auto& v : r ) v *= q; for( auto& v : m->s.w ) v *= q; if( c.chance( 1, 8 ) ) m->s.b[0] += 5; else setRoot( m->s, nb.root ); }
    Vec x0 = guess( m->s.n ); bool soft = false, hard = true; auto f = makeSolver( d, sp, 0 ); f->setComponent( std::shared_ptr<VectorMapping<VD>>( m ) ); Trace fresh = runIt( *f, x0, &hard ), t = runIt( *s, x0, &soft );
    c.log << " | finally " << m->s.str() << " from " << str( x0 ) << " -> " << fresh.status << ", " << t.status << " " << t.error;
    EXPECT( fresh.status != NSI::Converged || t.status == NSI::Converged, "soft", "status " << t.status << " " << t.error << " after " << t.x.size() - 1 << " iterations of a softly restarted solver; a new one converges in " << fresh.x.size() - 1 );
    EXPECT( t.x.size() <= 202, "soft", "too many iterations" ); if( t.status == NSI::Converged ) EXPECT( norm( m->s( t.x.back() ) ) <= 1e-6, "soft", "converged with residual " << norm( m->s( t.x.back() ) ) );
    c.nontrivial( t.x != fresh.x ); c.label( "second attempt", t.x.size() > fresh.x.size() + 1 ); c.label( d );
}
