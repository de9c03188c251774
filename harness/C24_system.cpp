// C24 - what a system is told and asked during a step, and in which order; exceptions of the system and of observers
#include "ode_common.h"

struct Ev { char k; double t; Vec x; int depth; };       // P pre-observer (t: step), B beforeStep, S beforeStep2, R right hand side, Z zero functions, W switch, T truncateStep, Q post-observer (t: step, x: accepted, truncated)
struct Boom { int n; };
struct Trace { std::vector<Ev> e; int depth = 0, left = -1, thrown = 0; void add( char k, double t, const Vec& x ) { e.push_back( { k, t, x, depth } ); if( left > 0 && --left == 0 ) { thrown = e.size(); throw Boom{ 42 }; } } };
class TraceRhs : public TestRhs
{
public:
    Trace *tr = nullptr; mutable bool inStep = false;
    void rhs( V& dst, double t, const V& x ) const override { Vec v = toVec( x ); if( x.size() != varCount() ) throw std::runtime_error( "right hand side called with a state of wrong size" ); tr->add( 'R', t, v ); dst = toV( f( t, v ) ); }
    using OdeRhs<VD>::rhs;
    void zeroFunctions( V& dst, double t, const V& x ) const override { Vec v = toVec( x ); tr->add( 'Z', t, v ); dst = toV( zf( t, v ) ); }
    void switchPhaseState( const int *q, double t, V& x ) override { Vec v = toVec( x ); tr->add( 'W', t, v ); sw( q, t, v ); for( size_t i = 0; i < v.size(); ++i ) x[i] = v[i]; }
    void beforeStep( double t, const V& x ) const override { tr->add( 'B', t, toVec( x ) ); }
    void beforeStep2( const V& r ) const override { tr->add( 'S', 0, toVec( r ) ); }
    bool truncateStep( double& t, V& x ) const override { Vec v = toVec( x ); tr->add( 'T', t, v ); if( !trunc ) return false; bool r = trunc( t, v ); for( size_t i = 0; i < v.size(); ++i ) x[i] = v[i]; return r; }
};
struct Meth { std::string id; int stages; };
static OptionalParameters::Value PV( const std::string& s, const Params& p ) { return OptionalParameters::Value( s, p ); }

static void run( pbt::Ctx& c, bool boom )
{
    Meth m = c.pick( std::vector<Meth>{ { "euler", 1 }, { "rk4", 4 }, { "dopri_45", 7 }, { "dopri_56", 8 }, { "dopri_78", 13 }, { "gragg", 0 }, { "rosenbrock_w1", 0 }, { "rosenbrock_sw2_4", 0 }, { "i_euler", 0 }, { "extrapolator", 0 } } ); bool emb = m.id.compare( 0, 5, "dopri" ) == 0, ex = m.id == "extrapolator", ie = m.id == "i_euler", w1 = m.id == "rosenbrock_w1", sw = m.id == "rosenbrock_sw2_4";
    Smooth s = genSmooth( c, 4, c.pick( std::vector<double>{ 1, 4 } ) ); Params p; double h = c.logreal( .01, .5 ); bool ctl = ( emb || ex || sw ) && c.chance( 2, 3 ), withEc = !c.chance( 1, 5 ), forceErr = false; std::string ref; std::vector<int> seq; int pred = 0;
    if( emb || ex || sw ) { p["disable_error_check"] = !ctl; Params k; k["tolerance"] = c.logreal( 1e-8, 1e-2 ); k["max_threshold"] = .6; p["stepsizectl"] = PV( "simple", k ); } if( emb && c.flip() ) p["mode"] = "high"; if( emb && c.chance( 1, 4 ) ) { p["force_error_calc"] = true; forceErr = true; }
    if( ex ) { ref = c.pick( std::vector<std::string>{ "euler", "gragg", "rk4" } ); int st = c.range( 2, 4 ); p["symmetric"] = ref == "gragg"; p["max_stages"] = unsigned( st ); bool rom = c.flip(); p["step_sequence"] = PV( rom ? "romberg" : "harmonic", Params() ); p["reference_solver"] = PV( ref, Params() ); for( int i = 0; i < st; ++i ) seq.push_back( rom ? 1 << i : i+1 ); }
    if( ie ) { Params e; e["rel_max_threshold"] = 0.; Params n; n["err"] = PV( "simple", e ); p["algsolver"] = PV( "newton", n ); if( c.flip() ) { pred = c.range( 1, 3 ); p["predictor"] = PV( c.pick( std::vector<std::string>{ "euler", "rk4" } ), Params() ); p["predictor_steps"] = unsigned( pred ); } p["alpha"] = c.pick( std::vector<double>{ 1, .5, .75 } ); }
    if( !withEc ) p["eventctl"] = PV( "", Params() ); p["h_init"] = h; auto sol = makeSolver( m.id, p ); h = sol->initialStepSize();
    Trace tr; auto r = std::make_shared<TraceRhs>(); r->tr = &tr; r->nd = s.nd; r->n1 = s.n1; r->f = [s]( double t, const Vec& x ) { return s.f( t, x ); }; bool hasZf = c.chance( 2, 3 ); if( hasZf ) { installEvent( c, *r, s.n() ); hasZf = !r->flags.empty(); } else if( c.flip() ) r->trunc = [&]( double& t, Vec& ) { ( void )t; return false; };
    int truncEvery = !hasZf && r->trunc ? c.range( 1, 4 ) : 0, asked = 0; if( truncEvery ) r->trunc = [&]( double& t, Vec& x ) { if( ++asked % truncEvery ) return false; for( size_t i = tr.e.size(); i-- > 0; ) if( tr.e[i].k == 'P' && tr.e[i].depth == 0 ) { t -= .3*tr.e[i].t; break; } for( auto& v : x ) v *= .99; return true; };
    int refDepth = 0; std::vector<std::shared_ptr<void>> keep; ( void )refDepth;
    auto o1 = cxx::makeScopedIdentifiedElement( sol->odeSolverPreObservers, [&]( double q, const Solver *w ) { EXPECT( w == sol.get(), "observers", "another solver is reported" ); tr.add( 'P', q, {} ); if( tr.e.size() > 200000 ) throw std::logic_error( "endless" ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( sol->odeSolverPostObservers, [&]( const PostArg& a ) { EXPECT( a.solver() == sol.get(), "observers", "another solver is reported" ); tr.add( 'Q', a.stepSize(), { double( a.stepAccepted() ), double( a.stepTruncated() ) } ); } );
    if( ex ) { auto rs = dynamic_cast<OdeSolverExtrapolator<VD>*>( sol.get() )->referenceSolver(); rs->odeSolverPreObservers.add( [&]( double, const Solver* ) { ++tr.depth; } ); rs->odeSolverPostObservers.add( [&]( const PostArg& ) { --tr.depth; } ); }
    c.log << m.id << " " << ref << ( ctl ? " controlled" : "" ) << ( withEc ? "" : " no event controller" ) << ( pred ? " predictor" : "" ) << " h " << h << " " << s.str() << ( hasZf ? " zero function, flags " + std::to_string( r->flags[0] ) : "" ) << ( truncEvery ? " truncating" : "" ) << "\n";
    sol->setOdeRhs( r ); unsigned n = s.n(); double t = 0; Vec x( n ); int steps = c.range( 1, 6 ), rejected = 0, truncated = 0, restarts = 0; bool hard = true, first = true, running = false;
    if( boom ) tr.left = -1; int boomStep = boom ? c.range( 0, steps-1 ) : -1;
    for( int k = 0; k < steps; ++k ) {
        if( k == 0 || c.chance( 1, 6 ) ) {
            t = c.real( -1, 1 ); for( auto& v : x ) v = c.real( -2, 2 ); bool soft = k && c.flip(); tr.e.clear(); sol->setInitialState( t, toV( x ), soft ); hard = hard || !soft; first = true; running = false; restarts += k > 0;
            EXPECT( tr.e.size() <= 1 && ( tr.e.empty() || ( tr.e[0].k == 'R' && tr.e[0].t == t && sameV( tr.e[0].x, x ) ) ), "initial", "setting the initial state called the system " << tr.e.size() << " times" ); c.log << ( soft ? "soft " : "" ) << "start at " << t << " " << str( x ) << "\n";
        }
        tr.e.clear(); tr.depth = 0; if( k == boomStep ) tr.left = 1 + c.size( 0, 20, 200, 4 ); std::string err; bool caught = false;
        try { sol->doStep(); } catch( const pbt::Failure& ) { throw; } catch( const Boom& b ) { caught = b.n == 42; } catch( const cxx::exception& e ) { err = e.what(); }
        tr.left = -1; if( tr.thrown ) {
            EXPECT( caught, "exception", "an exception of the system or of an observer did not leave doStep(): " << err ); const Ev& last = tr.e.back(); double te = sol->initialTime(); Vec xe = toVec( sol->initialState() ); std::string where = std::string( "exception in call " ) + last.k + " (" + std::to_string( tr.thrown ) + ")"; c.label( std::string( "exception in " ) + last.k );
            bool complete = false; for( auto& e : tr.e ) if( e.depth == 0 && ( e.k == 'Q' ? e.x[0] != 0 : e.k == 'W' || ( e.k == 'T' && &e != &last ) ) ) complete = true; if( last.k == 'W' ) complete = false;
            if( !complete ) EXPECT( te == t && sameV( xe, x ), "state", where << ": time and state are " << te << " " << str( xe ) << ", the step began at " << t << " " << str( x ) );
            c.nontrivial( tr.thrown > 1 ); c.label( m.id ); return;
        }
        bool bad = !err.empty(); if( bad ) EXPECT( ( ctl && err.find( "minimum" ) != std::string::npos ) || ( ie && err.find( "Algebraic" ) != std::string::npos ), "exception", "step " << k << ": " << err ); if( bad && ie ) { c.label( "failed" ); break; }
        size_t at = 0; bool done = false; int attempt = 0; double te = sol->initialTime(); Vec xe = toVec( sol->initialState() );
        while( at < tr.e.size() ) {
            EXPECT( !done, "order", "the system or an observer is called after the end of the step" ); EXPECT( tr.e[at].k == 'P', "order", "attempt " << attempt << " begins with call " << tr.e[at].k << ", not with the pre-observers" ); double hh = tr.e[at].t; size_t end = at+1; while( end < tr.e.size() && tr.e[end].k != 'Q' && tr.e[end].k != 'P' ) ++end;
            bool have = end < tr.e.size() && tr.e[end].k == 'Q'; EXPECT( have || bad, "order", "attempt " << attempt << " has no post-observers" ); bool acc = have && tr.e[end].x[0] != 0, trn = have && tr.e[end].x[1] != 0; if( have ) EXPECT( tr.e[end].t == hh, "observers", "pre-observers were told step " << hh << ", post-observers " << tr.e[end].t );
            std::ostringstream ws; ws.precision( 17 ); ws << "step " << k << ", attempt " << attempt << " from t=" << t << " with h=" << hh << ( acc ? " accepted" : " rejected" ) << ( trn ? " truncated: " : ": " ); std::string W = ws.str(), kinds; for( size_t i = at; i <= end && i < tr.e.size(); ++i ) if( tr.e[i].depth == 0 ) kinds += tr.e[i].k; W += kinds.size() > 60 ? kinds.substr( 0, 60 ) : kinds; W += ": ";
            int nb = 0, ns = 0, nr = 0, nz = 0, nw = 0, nt = 0; double slack = 1e-12*( 1 + std::fabs( t ) ), lo = t - slack, hi = t + ( sw ? 5./3 : 1 )*hh + slack; const Ev *sw_ = nullptr; bool zEnd = false; int rAfterW = 0;
            for( size_t i = at+1; i < end; ++i ) {
                const Ev& e = tr.e[i];
                if( e.k == 'R' ) { ++nr; EXPECT( e.t >= lo && e.t <= hi, "time", W << "right hand side evaluated at t=" << e.t ); if( nb == 0 && !ex && !( ie && pred ) ) EXPECT( ( w1 || sw ) && e.t == t && dist( e.x, x ) <= 1e-5*( 1 + norm( x ) ), "order", W << "right hand side evaluated before the system was told of the step" ); if( nw ) { ++rAfterW; EXPECT( sw && e.t == te && sameV( e.x, xe ), "order", W << "right hand side evaluated at " << e.t << " " << str( e.x ) << " after the phase was switched" ); } if( ie && !pred ) EXPECT( e.t == t || close( e.t, t + hh, 1 + std::fabs( t ), 1e-15 ), "time", W << "right hand side evaluated at t=" << e.t ); }
                if( e.depth ) { EXPECT( e.k == 'R' || e.k == 'B' || e.k == 'S', "nested", W << "the reference solver called " << e.k ); continue; }
                if( e.k == 'B' ) { ++nb; if( !( ie && pred ) || nb == 1 || nb == pred + 1 ) EXPECT( e.t == t && sameV( e.x, x ), "beforeStep", W << "told of a step from " << e.t << " " << str( e.x ) << ", it starts at " << t << " " << str( x ) ); }
                if( e.k == 'S' ) { ++ns; if( !ie ) EXPECT( sameV( e.x, s.f( t, x ) ), "beforeStep2", W << "told of the derivative " << str( e.x ) << ", it is " << str( s.f( t, x ) ) ); }
                if( e.k == 'Z' ) { ++nz; if( e.t == t && sameV( e.x, x ) && first && nz == 1 ) continue; if( !zEnd && nw == 0 ) { zEnd = true; EXPECT( acc && close( e.t, t + hh, 1 + std::fabs( t ), 1e-14 ), "zero", W << "zero functions evaluated at " << e.t ); if( !trn && m.id != "gragg" ) EXPECT( sameV( e.x, xe ), "zero", W << "zero functions evaluated at " << str( e.x ) << ", the step ends at " << str( xe ) ); } else EXPECT( nw == 1 && e.t == te && sameV( e.x, xe ), "zero", W << "zero functions evaluated at " << e.t << " " << str( e.x ) ); }
                if( e.k == 'W' ) { ++nw; sw_ = &e; EXPECT( acc && trn && zEnd && e.t == te, "switch", W << "phase switched at t=" << e.t << ", step ends at " << te ); }
                if( e.k == 'T' ) { ++nt; EXPECT( acc && close( e.t, t + hh, 1 + std::fabs( t ), 1e-14 ), "truncate", W << "asked for truncation at t=" << e.t ); }
            }
            int wantB = ie && pred ? pred + 1 : 1; EXPECT( nb == wantB, "beforeStep", W << "told " << nb << " times of the step" ); bool wantS = m.stages > 0 || w1 || sw; if( !ie ) EXPECT( ns == ( wantS ? 1 : 0 ), "beforeStep2", W << "told " << ns << " times of the derivative" );
            if( withEc && ( have || !bad ) ) { int wz = hasZf ? ( first ? 1 : 0 ) + ( acc ? 1 : 0 ) + ( trn && ( r->flags[0] & 4 ) ? 1 : 0 ) : 0; EXPECT( nz == wz, "zero", W << "zero functions evaluated " << nz << " times, expected " << wz ); EXPECT( nt == ( !hasZf && acc ? 1 : 0 ), "truncate", W << "asked for truncation " << nt << " times" ); EXPECT( nw == ( hasZf && trn ? 1 : 0 ), "switch", W << "phase switched " << nw << " times" ); }
            if( !withEc ) EXPECT( nz + nw + nt == 0 && !trn, "switch", W << "event functions called without event controller" );
            int wr = -1; if( m.stages ) wr = m.stages; if( m.id == "gragg" ) wr = running ? 2 : 3; if( w1 ) wr = 1 + ( hard ? n : 0 ); if( sw ) wr = ( ctl ? 3 : 2 ) + ( hard ? n + 1 : 0 ) + ( trn ? 1 : 0 ); if( ex ) { wr = 0; for( int q : seq ) wr += ref == "euler" ? q : ref == "rk4" ? 4*q : 2*q + 1; }
            if( wr >= 0 && ( have || !bad ) ) EXPECT( nr == wr, "count", W << nr << " evaluations of the right hand side, expected " << wr );
            ( void )sw_; ( void )rAfterW; hard = false; if( withEc ) first = false; done = acc; rejected += have && !acc; truncated += trn; running = acc && !trn; ++attempt; at = have ? end+1 : end;
        }
        if( bad ) { c.label( "minimum step" ); break; } EXPECT( done, "accept", "doStep() returned without an accepted step" ); t = te; x = xe; if( !( norm( x ) < 1e3 ) ) break;
    }
    c.nontrivial( steps > 1 && ( rejected || truncated || restarts || !ctl ) && !boom ); c.label( m.id ); c.label( "rejected", rejected > 0 ); c.label( "truncated", truncated > 0 ); c.label( "restarts", restarts > 0 ); ( void )forceErr;
}
PBT( contract, 60000, 800000, "every solver on random smooth systems with and without zero functions, truncation by the system, event and step size controllers; each call of the system and of the observers is traced: per attempt pre-observers first, the system told once of time, state and (explicit and linearly implicit methods) derivative at its start, "
     "right hand sides at times within the step and as many as the method has, zero functions, truncation and switches only in accepted attempts and where they belong, post-observers last; non-trivial: several steps with a rejected or truncated one, a restart, or fixed steps" ) { run( c, false ); }
PBT( exceptions, 30000, 400000, "the same with an exception thrown by a random call of the system or of an observer: it leaves doStep() as it is, and time and state are those at the start of the step unless the step was complete; non-trivial: not in the very first call" ) { run( c, true ); }
