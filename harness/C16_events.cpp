// C16 - events: zero functions, truncated steps, phase switching, in every solver
#include "hybrid.h"

static Params noEvents( Params p = Params() ) { p["eventctl"] = OptionalParameters::Value( "", Params() ); return p; }
static Params newton( double abs ) { Params e; e["abs_tol"] = abs; e["rel_tol"] = 1e-3; e["rel_max_threshold"] = 0.; Params n; n["err"] = OptionalParameters::Value( "simple", e ); Params p; p["algsolver"] = OptionalParameters::Value( "newton", n ); return p; }
// solver with its own event controller, and a copy without one
struct Pair { std::string id; Params p, twin; bool follow, adaptive; double hAfter = 0; };
static Pair genSolver( pbt::Ctx& c )
{
    Pair s; s.id = c.pick( std::vector<std::string>{ "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "gragg", "rosenbrock_w1", "rosenbrock_sw2_4", "i_euler", "extrapolator" } ); s.follow = false; s.adaptive = false; bool emb = s.id.substr( 0, 5 ) == "dopri";
    if( s.id == "i_euler" ) { s.p = newton( 1e-13 ); if( c.flip() ) { s.p["predictor"] = OptionalParameters::Value( c.pick( std::vector<std::string>{ "euler", "rk4" } ), c.flip() ? noEvents() : Params() ); if( c.flip() ) s.p["predictor_steps"] = 2u; } s.follow = true; }
    if( s.id == "extrapolator" ) { std::string r = c.pick( std::vector<std::string>{ "euler", "gragg" } ); s.p["symmetric"] = r == "gragg"; s.p["step_sequence"] = OptionalParameters::Value( c.pick( std::vector<std::string>{ "harmonic", "romberg", "bulirsch" } ), Params() ); s.p["max_stages"] = 2u + c.range( 0, 1 ); s.p["reference_solver"] = OptionalParameters::Value( r, c.flip() ? noEvents() : Params() ); }
    if( s.id == "gragg" || s.id == "rosenbrock_w1" || s.id == "rosenbrock_sw2_4" ) s.follow = true;
    if( emb && c.flip() ) s.p["mode"] = "high";
    if( emb && c.flip() ) s.p["h_after_switch"] = s.hAfter = c.pick( std::vector<double>{ .125, .03125, .01 } );
    if( emb || s.id == "extrapolator" ) { if( c.flip() ) { s.adaptive = true; Params k; k["tolerance"] = c.logreal( 1e-6, 1e-2 ); k["max_threshold"] = .5; s.p["stepsizectl"] = OptionalParameters::Value( "simple", k ); } else s.p["disable_error_check"] = true; }
    if( s.id == "rosenbrock_sw2_4" ) s.p["disable_error_check"] = true;
    s.twin = noEvents( s.p ); if( s.adaptive ) s.twin["disable_error_check"] = true; s.twin["h_after_switch"] = 0.; return s;
}
struct Seen { PostArg a; size_t sw; };
static void run( pbt::Ctx& c, bool constant )
{
    Hybrid g = genHybrid( c, constant ); Pair ps = genSolver( c ); double h = constant ? c.pick( std::vector<double>{ 1, .5, .25, .125, .1 } ) : c.logreal( .02, .3 ); bool dyadic = constant && h != .1 && ps.id != "i_euler";
    ps.p["h_init"] = h; auto sol = makeSolver( ps.id, ps.p ), tw = makeSolver( ps.id, ps.twin ); c.log << ps.id << " h " << h << ( ps.adaptive ? " adaptive" : "" ) << " h_after " << ps.hAfter << "\n" << g.str() << "\n"; h = sol->initialStepSize();
    auto mode = std::make_shared<std::vector<int>>( g.mode ); auto mk = [&] { return makeRhs( g.s.nd, g.s.n1, [&g,mode]( double t, const Vec& x ) { return g.f( t, x, *mode ); } ); }; auto r = mk(), rt = mk(); r->flags = g.flags; r->zf = [&g]( double t, const Vec& x ) { return g.zf( t, x ); };
    r->sw = [&]( const int *tr, double, Vec& x ) { for( size_t i = 0; i < g.flags.size(); ++i ) if( tr[i] ) { ( *mode )[i] = !( *mode )[i]; x[g.jump[i].first] *= g.jump[i].second; } };
    std::vector<double> pre; std::vector<Seen> post; auto o1 = cxx::makeScopedIdentifiedElement( sol->odeSolverPreObservers, [&]( double q, const Solver* ) { pre.push_back( q ); if( pre.size() > 300 ) throw std::logic_error( "endless" ); } ); auto o2 = cxx::makeScopedIdentifiedElement( sol->odeSolverPostObservers, [&]( const PostArg& a ) { post.push_back( { a, r->switches.size() } ); } );
    unsigned n = g.s.n(), nz = g.flags.size(); double t = 0; Vec x( n ); Vec zf1; std::vector<std::set<int>> st( nz ); const std::set<int> any{ -1, 0, 1 }; int events = 0, steps = c.range( 2, 14 ), restarts = 0; bool reset = true, both = false, chain = false; double prevH = 0; bool prevTrunc = false;
    auto sg = []( double v ) { return v > 0 ? 1 : v < 0 ? -1 : 0; }; double rel = ps.id == "i_euler" ? 1e-9 : 1e-11; auto tolOf = [&]( double z1, double z2 ) { return rel*( 10 + std::fabs( z1 ) + std::fabs( z2 ) ); };
    auto fromState = [&]( unsigned i ) { st[i] = std::fabs( zf1[i] ) <= tolOf( zf1[i], 0 ) && !( dyadic && zf1[i] == 0 ) ? any : std::set<int>{ sg( zf1[i] ) }; };
    for( int k = 0; k < steps; ++k ) {
        if( k == 0 || c.chance( 1, 8 ) ) {
            t = constant ? c.range( -2, 2 ) : c.real( -1, 1 ); for( auto& v : x ) v = constant ? c.range( -6, 6 )*.5 : c.real( -2, 2 ); bool soft = k && ( c.flip() || ps.id == "rosenbrock_sw2_4" );
            if( k == 0 ) { sol->setOdeRhs( r ); tw->setOdeRhs( rt ); tw->setInitialStepSize( h ); } else { ++restarts; if( c.flip() && !soft ) { std::fill( mode->begin(), mode->end(), 0 ); } }
            sol->setInitialState( t, toV( x ), soft ); if( k == 0 || !soft ) { tw->setInitialStepSize( h ); tw->setInitialState( t, toV( x ) ); } else tw->setInitialState( t, toV( x ), true ); zf1 = g.zf( t, x ); for( unsigned i = 0; i < nz; ++i ) fromState( i ); reset = false; prevH = 0; c.log << ( soft ? "soft " : "" ) << "start at " << t << " " << str( x ) << " zf " << str( zf1 ) << "\n";
        }
        std::vector<int> before = *mode; pre.clear(); post.clear(); size_t sw0 = r->switches.size(); std::string err; try { sol->doStep(); } catch( const std::exception& e ) { err = e.what(); }
        if( !err.empty() ) { EXPECT( ( ps.adaptive && err.find( "minimum" ) != std::string::npos ) || ( ps.id == "i_euler" && err.find( "Algebraic" ) != std::string::npos && !constant ), "exception", "step " << k << ": " << err ); c.label( "step failed" ); break; }
        EXPECT( !pre.empty() && pre.size() == post.size(), "observers", pre.size() << " pre- and " << post.size() << " post-observer calls" ); double hh = pre.back();
        for( size_t i = 0; i+1 < post.size(); ++i ) EXPECT( !post[i].a.stepAccepted() && !post[i].a.stepTruncated() && post[i].sw == sw0 && post[i].a.izfTrunc() == ~0u, "rejected", "a rejected attempt of step " << k << " was truncated or has switched the phase" );
        if( prevH != 0 && ps.id.substr( 0, 5 ) == "dopri" && !ps.adaptive ) { double e = prevTrunc && ps.hAfter > 0 ? std::min( prevH, ps.hAfter ) : prevH; EXPECT( close( pre[0], e, e, 1e-12 ), "step", "step " << k << " starts with step size " << pre[0] << ", expected " << e ); }
        if( prevH != 0 && ps.adaptive && prevTrunc && ps.hAfter > 0 ) EXPECT( pre[0] <= ps.hAfter*( 1 + 1e-12 ), "step", "step size " << pre[0] << " after an event exceeds h_after_switch " << ps.hAfter );
        const PostArg& a = post.back().a; double te = sol->initialTime(); Vec xe = toVec( sol->initialState() );
        // the whole step, without events
        Vec x2; { auto after = *mode; *mode = before; if( !ps.follow || reset ) { tw->setInitialStepSize( hh ); tw->setInitialState( t, toV( x ), true ); } try { tw->doStep(); } catch( const cxx::exception& ) { *mode = after; c.label( "step failed" ); break; } *mode = after; x2 = toVec( tw->initialState() ); }
        Vec zf2 = g.zf( t + hh, x2 ); double xtol = rel*( 10 + norm( x ) + norm( x2 ) ); std::ostringstream where; where.precision( 17 ); where << "step " << k << " from t=" << t << " " << str( x ) << " zf " << str( zf1 ) << ": whole step to " << str( x2 ) << " zf " << str( zf2 ) << "; solver at t=" << te << " " << str( xe ) << ( a.stepTruncated() ? " truncated by function " : "" ); if( a.stepTruncated() ) where << a.izfTrunc() << " type " << a.transitionType(); std::string W = where.str();
        EXPECT( a.stepAccepted() && a.stepSize() == hh, "observers", W << ": observers told size " << a.stepSize() );
        // value v of function j with previous sign s, clearly on the other side?
        auto crossed = [&]( unsigned j, double v, double tol ) { unsigned d = g.flags[j] & 3; if( d == 1 ) return v < -tol; if( d == 2 ) return v > tol; for( int s : st[j] ) if( s ? s*v >= -tol : std::fabs( v ) <= tol ) return false; return true; };
        if( !a.stepTruncated() ) {
            EXPECT( close( te, t + hh, 1 + std::fabs( t ), 1e-14 ), "time", W << ": not truncated, expected time " << t + hh ); EXPECT( dist( xe, x2 ) <= xtol, "state", W << ": not truncated" ); EXPECT( r->switches.size() == sw0, "switch", W << ": phase switched without a truncated step" ); EXPECT( a.izfTrunc() == ~0u, "observers", W << ": function " << a.izfTrunc() << " reported" );
            for( unsigned j = 0; j < nz; ++j ) { double tol = tolOf( zf1[j], zf2[j] ); EXPECT( !crossed( j, zf2[j], tol ), "missed", W << ": event of function " << j << " missed" ); if( dyadic && zf2[j] == 0 && ( g.flags[j] & 3 ) == 3 ) EXPECT( st[j].count( 0 ), "missed", W << ": function " << j << " is zero at the end of the step" ); if( ( g.flags[j] & 3 ) == 3 && std::fabs( zf2[j] ) > tol ) st[j] = { sg( zf2[j] ) }; }
            zf1 = g.zf( te, xe ); reset = false;
        } else {
            unsigned i = a.izfTrunc(); EXPECT( i < nz, "observers", W << ": invalid function" ); double q = ( te - t )/hh, tol = tolOf( zf1[i], zf2[i] ); EXPECT( q >= -1e-12 && q <= 1 + 1e-12, "time", W << ": event outside the step" ); q = std::min( 1., std::max( 0., q ) );
            unsigned dir = g.flags[i] & 3; bool possible = dir == 1 ? zf2[i] <= tol : dir == 2 ? zf2[i] >= -tol : std::fabs( zf2[i] ) <= tol; if( dir == 3 ) for( int s : st[i] ) if( s*zf2[i] <= tol ) possible = true;
            EXPECT( possible, "spurious", W << ": no event" ); double ev = zf1[i] + q*( zf2[i] - zf1[i] ); bool inside = ( dir == 1 && zf1[i] < -tol ) || ( dir == 2 && zf1[i] > tol ); EXPECT( inside ? te == t : std::fabs( ev ) <= tol + 1e-13*( 1 + std::fabs( t ) )/hh*std::fabs( zf2[i] - zf1[i] ), "time", W << ": function interpolates to " << ev << " at the event" );
            for( unsigned j = 0; j < nz; ++j ) if( j != i && te > t ) { double tj = tolOf( zf1[j], zf2[j] ) + 1e-13*( 1 + std::fabs( t ) )/hh*std::fabs( zf2[j] - zf1[j] ), v = zf1[j] + q*( zf2[j] - zf1[j] ); if( crossed( j, zf2[j], tj ) ) EXPECT( !crossed( j, v, tj ), "first", W << ": function " << j << " has its zero earlier (" << v << " at the event)" ); }
            EXPECT( std::fabs( zf2[i] ) <= tol || a.transitionType() == sg( zf2[i] ), "observers", W << ": wrong transition type" ); EXPECT( r->switches.size() == sw0 + 1, "switch", W << ": phase switched " << r->switches.size() - sw0 << " times" ); auto& s = r->switches.back(); Vec xm( n ); for( unsigned j = 0; j < n; ++j ) xm[j] = x[j] + q*( x2[j] - x[j] );
            double slope = 0; for( unsigned j = 0; j < n; ++j ) slope = std::max( slope, std::fabs( x2[j] - x[j] ) ); EXPECT( s.t == te && dist( s.x, xm ) <= xtol + 1e-14*( 1 + std::fabs( t ) )/hh*slope, "state", W << ": phase switched at t=" << s.t << " " << str( s.x ) << ", expected " << str( xm ) );
            for( unsigned j = 0; j < nz; ++j ) EXPECT( s.tr[j] == ( j == i ? a.transitionType() : 0 ), "switch", W << ": transition " << s.tr[j] << " of function " << j ); Vec xa = s.x; if( a.transitionType() ) xa[g.jump[i].first] *= g.jump[i].second; EXPECT( dist( xe, xa ) == 0, "state", W << ": state after the event, expected " << str( xa ) );
            Vec zn = g.zf( te, xe ); for( unsigned j = 0; j < nz; ++j ) { if( g.flags[j] & 4 ) { zf1[j] = zn[j]; fromState( j ); } else { zf1[j] += q*( zf2[j] - zf1[j] ); if( j == i ) st[j] = { a.transitionType() }; } }
            for( unsigned j = 0; j < nz; ++j ) if( j != i && std::fabs( zf2[j] ) > 1e-6 && zf1[j]*zf2[j] < 0 ) both = true; chain |= prevTrunc; ++events; reset = true;
        }
        prevH = hh; prevTrunc = a.stepTruncated(); t = te; x = xe; c.log << "t=" << te << ( a.stepTruncated() ? " event " + std::to_string( a.izfTrunc() ) : "" ) << "\n"; if( !( norm( x ) < 1e3 ) ) break;
    }
    c.nontrivial( events > 0 ); c.label( ps.id ); c.label( "events", events > 0 ); c.label( "consecutive events", chain ); c.label( "another function pending", both ); c.label( "restarts", restarts > 0 );
}
PBT( constant_rates, 12000, 250000, "systems with up to 3 variables of constant rate in each phase (on a grid where events hit step ends and each other exactly, and off it), up to 3 affine zero functions of every direction and kind that toggle phases and change variables, every solver, hard and soft restarts; "
     "oracle: the straight line of the step and its intersection with the functions; non-trivial: at least one event" ) { run( c, true ); }
PBT( smooth, 12000, 250000, "the same with smooth nonlinear systems with first and second order variables and quadratic zero functions, adaptive solvers included; oracle: the step of a solver of the same kind without event controller, and the linear interpolation; non-trivial: at least one event" ) { run( c, false ); }

PBT( truncate, 4000, 60000, "systems without zero functions that end steps themselves (truncateStep): time and state at the end of the step are those they set, observers are told, and the next step starts there; non-trivial: a truncated step followed by another one" )
{
    Smooth s = genSmooth( c, 4, 2 ); Pair ps = genSolver( c ); double h = c.logreal( .02, .3 ); ps.p["h_init"] = h; auto sol = makeSolver( ps.id, ps.p ), tw = makeSolver( ps.id, ps.twin ); h = sol->initialStepSize(); auto r = makeRhs( s ); bool doIt = false, did = false; double tEnd = 0, tArg = 0; Vec xEnd, xArg;
    r->trunc = [&]( double& t, Vec& x ) { tArg = t; xArg = x; did = true; if( !doIt ) return false; t = tEnd; x = xEnd; return true; }; sol->setOdeRhs( r ); tw->setOdeRhs( makeRhs( s ) ); double t = c.real( -1, 1 ); Vec x( s.n() ); for( auto& v : x ) v = c.real( -2, 2 ); sol->setInitialState( t, toV( x ) ); tw->setInitialStepSize( h ); tw->setInitialState( t, toV( x ) ); c.log << ps.id << " h " << h << " " << s.str() << " t " << t << " " << str( x ) << "\n";
    std::vector<double> pre; std::vector<PostArg> post; auto o1 = cxx::makeScopedIdentifiedElement( sol->odeSolverPreObservers, [&]( double q, const Solver* ) { pre.push_back( q ); } ); auto o2 = cxx::makeScopedIdentifiedElement( sol->odeSolverPostObservers, [&]( const PostArg& a ) { post.push_back( a ); } ); bool reset = false; int k = c.range( 1, 6 ), good = 0;
    for( int i = 0; i < k; ++i ) {
        doIt = c.flip(); did = false; tEnd = t + c.real( 0, 1 )*h*.01; xEnd = x; for( auto& v : xEnd ) v += c.real( -.1, .1 ); pre.clear(); post.clear(); try { sol->doStep(); } catch( const cxx::exception& e ) { std::string m = e.what(); EXPECT( ( ps.adaptive && m.find( "minimum" ) != std::string::npos ) || ps.id == "i_euler", "exception", m ); break; }
        EXPECT( did, "truncate", "the system was not asked whether to end the step" ); double hh = pre.back(); if( !ps.follow || reset ) { tw->setInitialStepSize( hh ); tw->setInitialState( t, toV( x ), true ); } try { tw->doStep(); } catch( const cxx::exception& ) { break; } Vec x2 = toVec( tw->initialState() ); double tol = ( ps.id == "i_euler" ? 1e-9 : 1e-11 )*( 10 + norm( x ) + norm( x2 ) );
        EXPECT( close( tArg, t + hh, 1 + std::fabs( t ), 1e-14 ) && dist( xArg, x2 ) <= tol, "truncate", "asked at t=" << tArg << " " << str( xArg ) << ", step " << i << " ends at " << t + hh << " " << str( x2 ) ); EXPECT( post.back().stepTruncated() == doIt && post.back().stepAccepted(), "observers", "truncated: " << post.back().stepTruncated() << ", expected " << doIt );
        Vec got = toVec( sol->initialState() ); if( doIt ) EXPECT( sol->initialTime() == tEnd && sameV( got, xEnd ), "truncate", "step " << i << " ends at t=" << sol->initialTime() << " " << str( got ) << ", the system has set " << tEnd << " " << str( xEnd ) ); else EXPECT( dist( got, x2 ) <= tol, "state", "step " << i << ": " << str( got ) << ", expected " << str( x2 ) ); if( reset ) ++good; reset = doIt; t = sol->initialTime(); x = got; if( !( norm( x ) < 1e3 ) ) break;
    }
    c.nontrivial( good > 0 ); c.label( ps.id );
}
