// C17 - a hard (re)initialization makes an ODE solver like new; solvers do not influence each other
#include "hybrid.h"
using std::string;

struct Boom : std::runtime_error { Boom() : std::runtime_error( "injected failure of the right hand side" ) {} };
struct Faulty { std::shared_ptr<TestRhs> r; std::shared_ptr<std::vector<int>> mode; std::shared_ptr<long> fuse; };
static Faulty make( const Hybrid& g, bool events )
{
    Faulty f; auto mode = f.mode = std::make_shared<std::vector<int>>( g.mode ); auto fuse = f.fuse = std::make_shared<long>( -1 ); f.r = makeRhs( g.s.nd, g.s.n1, [g,mode,fuse]( double t, const Vec& x ) { if( *fuse >= 0 && ( *fuse )-- == 0 ) throw Boom(); return g.f( t, x, *mode ); } );
    if( events ) { f.r->flags = g.flags; f.r->zf = [g]( double t, const Vec& x ) { return g.zf( t, x ); }; f.r->sw = [g,mode]( const int *tr, double, Vec& x ) { for( size_t i = 0; i < g.flags.size(); ++i ) if( tr[i] ) { ( *mode )[i] = !( *mode )[i]; x[g.jump[i].first] *= g.jump[i].second; } }; }
    return f;
}
typedef OptionalParameters::Value Val;
static Params genParams( pbt::Ctx& c, const string& id, bool nested = false )
{
    Params p; bool emb = id.substr( 0, 5 ) == "dopri"; auto pick = [&]( std::initializer_list<string> l ) { return c.pick( std::vector<string>( l ) ); };
    if( id == "i_euler" ) {
        Params e; e["abs_tol"] = c.logreal( 1e-12, 1e-6 ); e["rel_tol"] = c.logreal( 1e-8, 1e-2 ); e["rel_max_threshold"] = 0.; Params n; if( c.chance( 2, 3 ) ) n["jacobian"] = Val( pick( { "default", "sparse" } ), Params() ); if( c.chance( 1, 4 ) ) n["jtrim"] = Val( pick( { "width", "threshold" } ), Params() ); n["err"] = Val( "simple", e ); n["ddir"] = Val( pick( { "simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const" } ), Params() ); n["max_iterations"] = unsigned( c.range( 5, 60 ) ); p["algsolver"] = Val( "newton", n ); p["alpha"] = c.pick( std::vector<double>{ 1, 1, .5, .7 } );
        if( c.flip() ) { p["predictor"] = Val( pick( { "euler", "rk4", "gragg", "rosenbrock_w1" } ), Params() ); p["predictor_steps"] = unsigned( c.range( 1, 3 ) ); }
    }
    if( id == "extrapolator" ) { string r = nested ? "euler" : pick( { "euler", "gragg", "rosenbrock_w1", "rk4", "i_euler" } ); p["symmetric"] = r == "gragg"; p["step_sequence"] = Val( pick( { "harmonic", "romberg", "bulirsch" } ), Params() ); p["max_stages"] = unsigned( c.range( 2, 4 ) ); p["reference_solver"] = Val( r, genParams( c, r, true ) ); }
    if( emb && c.flip() ) p["mode"] = "high"; if( emb && c.chance( 1, 3 ) ) p["h_after_switch"] = .01; if( emb && c.chance( 1, 4 ) ) p["force_error_calc"] = true;
    if( emb || id == "extrapolator" || id == "rosenbrock_sw2_4" ) { if( c.chance( 3, 4 ) ) { Params k; k["tolerance"] = c.logreal( 1e-7, 1e-2 ); k["max_threshold"] = .5; p["stepsizectl"] = Val( "simple", k ); } else p["disable_error_check"] = true; if( c.chance( 1, 4 ) ) p["h_min"] = c.logreal( 1e-4, 1e-2 ); }
    if( id.substr( 0, 5 ) == "rosen" && c.chance( 1, 3 ) ) p["d"] = c.pick( std::vector<double>{ 1, .5, .3 } );
    p["h_init"] = c.logreal( .01, .3 ); return p;
}
// everything observable of a run
static Vec trace( Solver& s, Faulty& f, double t, const Vec& x, int steps, int& done, int& events )
{
    Vec tr; done = events = 0; auto o1 = cxx::makeScopedIdentifiedElement( s.odeSolverPreObservers, [&]( double q, const Solver* ) { tr.push_back( q ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( s.odeSolverPostObservers, [&]( const PostArg& a ) { for( double q : { a.stepSize(), a.errorNorm(), double( a.stepAccepted() ), double( a.stepSizeChanged() ), double( a.stepTruncated() ), double( a.izfTrunc() ), double( a.transitionType() ) } ) tr.push_back( q ); events += a.stepTruncated(); } ); long calls = f.r->calls;
    s.setInitialState( t, toV( x ) );
    for( int i = 0; i < steps; ++i ) { try { s.doStep(); } catch( const std::exception& e ) { tr.push_back( std::hash<string>()( e.what() ) ); break; } ++done; tr.push_back( s.initialTime() ); for( double v : toVec( s.initialState() ) ) tr.push_back( v ); tr.push_back( f.r->calls - calls ); if( !( norm( toVec( s.initialState() ) ) < 1e6 ) ) break; }
    return tr;
}
static string diff( const Vec& a, const Vec& b ) { std::ostringstream o; o.precision( 17 ); size_t i = 0; while( i < a.size() && i < b.size() && ( a[i] == b[i] || ( std::isnan( a[i] ) && std::isnan( b[i] ) ) ) ) ++i; o << "record " << i << " of " << a.size() << " and " << b.size(); if( i < a.size() && i < b.size() ) o << ": " << a[i] << ", expected " << b[i]; return o.str(); }

PBT( like_new, 12000, 200000, "every solver with random parameters and components; histories of runs on smooth systems of different sizes with and without events, ended anywhere or by a failure injected into the right hand side, soft restarts and step size changes; then a hard initialization with the same or another system; "
     "oracle: step sizes, errors, times, states, events and number of evaluations are identical to those of a newly created solver; non-trivial: at least two steps before and after" )
{
    string id = c.pick( std::vector<string>{ "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "gragg", "rosenbrock_w1", "rosenbrock_sw2_4", "i_euler", "extrapolator", "rosenbrock_sw2_4", "i_euler", "extrapolator", "gragg" } ); Params p = genParams( c, id ); bool two = c.chance( 1, 3 ); Params p0 = two ? genParams( c, id ) : p; auto used = makeSolver( id, p0 ), fresh = makeSolver( id, p0 ); auto second = [&] { used->setParameters( p ); fresh->setParameters( p ); two = false; }; c.log << id << "\n"; int before = 0, runs = c.range( 1, 3 ), faults = 0, ev = 0; Hybrid g; std::vector<Faulty> keep; bool fail = false; double h = used->initialStepSize();
    for( int k = 0; k < runs; ++k ) { if( two && k && c.flip() ) { second(); h = used->initialStepSize(); c.log << "other parameters\n"; }
        g = genHybrid( c, false ); bool events = c.flip(); Faulty f = make( g, events ); keep.push_back( f ); used->setOdeRhs( f.r ); double t = c.real( -1, 1 ); Vec x( g.s.n() ); for( auto& v : x ) v = c.real( -2, 2 ); if( c.chance( 1, 3 ) ) used->setInitialStepSize( h = c.logreal( .01, .5 ) ); c.log << "run on " << g.str() << ( events ? " with events" : "" ) << " from " << t << " " << str( x ) << "\n"; int steps = c.range( 0, 5 );
        try { used->setInitialState( t, toV( x ) ); for( int i = 0; i < steps; ++i ) { if( c.chance( 1, 10 ) ) { *f.fuse = c.range( 0, 20 ); } if( c.chance( 1, 10 ) ) { for( auto& v : x ) v += c.real( -1, 1 ); used->setInitialState( used->initialTime(), toV( x ), true ); } if( c.chance( 1, 12 ) ) used->setInitialState( c.flip() ? t : used->initialTime(), c.flip() ? toV( x ) : used->initialState() ); if( c.chance( 1, 12 ) ) used->setInitialStepSize( h = c.logreal( .01, .5 ) ); used->doStep(); ++before; if( !( norm( toVec( used->initialState() ) ) < 1e6 ) ) break; } } catch( const Boom& ) { fail = true; ++faults; c.log << "failed\n"; } catch( const cxx::exception& e ) { c.log << e.what() << "\n"; } *f.fuse = -1;
    }
    if( two ) { second(); h = used->initialStepSize(); c.log << "other parameters\n"; } bool sameObj = c.flip(), events = sameObj ? !keep.back().r->flags.empty() : c.flip(); if( !sameObj ) { if( !c.chance( 1, 3 ) ) g = genHybrid( c, false ); else if( c.flip() ) for( auto& v : g.flags ) v = c.pick( std::vector<unsigned>{ 3, 1, 2 } ) | ( v & 4 ); } if( c.chance( 1, 3 ) ) used->setInitialStepSize( h = c.logreal( .01, .5 ) ); fresh->setInitialStepSize( h ); Faulty f1 = sameObj ? keep.back() : make( g, events ), f2 = make( g, events ); *f1.mode = g.mode; if( sameObj ) c.log << "same system object; "; double t = c.real( -1, 1 ); Vec x( g.s.n() ); for( auto& v : x ) v = c.real( -2, 2 ); if( c.chance( 1, 3 ) ) { Vec y = toVec( used->initialState() ); if( y.size() == x.size() && norm( y ) < 1e6 ) { x = y; if( c.flip() ) t = used->initialTime(); } } int steps = c.range( 1, 6 ), d1, d2, e1, e2; c.log << "then " << g.str() << ( events ? " with events" : "" ) << " from " << t << " " << str( x );
    if( !sameObj ) used->setOdeRhs( f1.r ); fresh->setOdeRhs( f2.r ); Vec a = trace( *used, f1, t, x, steps, d1, e1 ), b = trace( *fresh, f2, t, x, steps, d2, e2 ); EXPECT( sameV( a, b ), "history", id << " after a history differs from a new one: " << diff( a, b ) ); c.nontrivial( before >= 2 && d1 >= 2 ); ev = e1; c.label( id ); c.label( "failure injected", fail ); c.label( "same system object", sameObj ); c.label( "events", ev > 0 ); (void)faults;
}
PBT( independent, 6000, 100000, "two to four solvers of any kinds stepping their own systems in random interleaving; oracle: each goes through exactly what it goes through alone; non-trivial: every solver takes at least two steps" )
{
    struct One { string id; Params p; Hybrid g; bool ev; double t; Vec x; std::shared_ptr<Solver> s; Faulty f; Vec tr; bool dead = false; int n = 0; }; unsigned k = c.range( 2, 4 ); std::vector<One> v( k ); const std::vector<string> ids{ "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "gragg", "rosenbrock_w1", "rosenbrock_sw2_4", "i_euler", "extrapolator" };
    auto start = []( One& o ) { o.s = makeSolver( o.id, o.p ); o.f = make( o.g, o.ev ); o.s->setOdeRhs( o.f.r ); o.s->setInitialState( o.t, toV( o.x ) ); }; auto step = []( One& o, Vec& tr ) { try { o.s->doStep(); tr.push_back( o.s->initialTime() ); for( double q : toVec( o.s->initialState() ) ) tr.push_back( q ); if( !( norm( toVec( o.s->initialState() ) ) < 1e6 ) ) o.dead = true; } catch( const cxx::exception& ) { tr.push_back( 1e99 ); o.dead = true; } };
    for( unsigned i = 0; i < k; ++i ) { auto& o = v[i]; bool copy = i && c.flip(); o.id = copy ? v[0].id : c.pick( ids ); o.p = copy ? v[0].p : genParams( c, o.id ); o.g = genHybrid( c, false ); o.ev = c.flip(); o.t = c.real( -1, 1 ); o.x.resize( o.g.s.n() ); for( auto& q : o.x ) q = c.real( -2, 2 ); start( o ); c.log << i << ": " << o.id << " " << o.g.str() << " t " << o.t << " " << str( o.x ) << "\n"; }
    int total = c.range( 4, 16 ); for( int i = 0; i < total; ++i ) { auto& o = v[c.range( 0, k-1 )]; if( o.dead ) continue; step( o, o.tr ); ++o.n; } bool all = true;
    for( auto& o : v ) { Vec alone; int n = o.n; all &= n >= 2; o.s.reset(); o.dead = false; start( o ); for( int i = 0; i < n; ++i ) step( o, alone ); EXPECT( sameV( o.tr, alone ), "independent", o.id << " goes another way next to other solvers: " << diff( o.tr, alone ) ); } c.nontrivial( all );
}
