// C20 - what the output options of a configuration write
#include "params.h"
#include "hybrid.h"
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
#include <iostream>

// a system of the configuration: generated anew for every case
static std::function<void( TestRhs& )> g_setup; static TestRhs *g_last = nullptr;
class CfgRhs : public TestRhs, public FactoryMixin<CfgRhs,OdeRhs<VD>> { public: CfgRhs() { if( g_setup ) g_setup( *this ); g_last = this; } std::string describeZeroFunction( unsigned i ) const override { return "event number " + std::to_string( i ); } };
static CfgRhs::Registrator g_regCfg( "generated" );
// a directory for the files of one case
struct Dir { std::string path; Dir() { char b[] = "/tmp/verif_output_XXXXXX"; if( !mkdtemp( b ) ) throw std::runtime_error( "no scratch directory" ); path = b; } ~Dir() { if( DIR *d = opendir( path.c_str() ) ) { while( auto e = readdir( d ) ) unlink( ( path + "/" + e->d_name ).c_str() ); closedir( d ); } rmdir( path.c_str() ); } };
static std::string slurp( const std::string& f ) { std::ifstream i( f ); std::ostringstream o; o << i.rdbuf(); return o.str(); }
struct Cout { std::ostringstream s; std::streambuf *old; Cout() : old( std::cout.rdbuf( s.rdbuf() ) ) {} ~Cout() { std::cout.rdbuf( old ); } };
static std::vector<std::string> lines( const std::string& s ) { std::vector<std::string> r; std::istringstream i( s ); std::string l; while( std::getline( i, l ) ) r.push_back( l ); return r; }
static std::vector<std::string> cells( const std::string& s ) { std::vector<std::string> r; size_t p = 0; for( ;; ) { size_t q = s.find( '\t', p ); r.push_back( s.substr( p, q == std::string::npos ? q : q - p ) ); if( q == std::string::npos ) return r; p = q + 1; } }
// what happened, as seen by the observers of the solver
struct Rec { bool newton = false; unsigned it = 0; std::string alpha16, alpha6, status; double t = 0, h = 0, err = 0; bool acc = false, changed = false, trunc = false; unsigned izf = 0; int tr = 0; Vec x; long calls = 0, jcalls = 0, jacs = 0; };
template<class X> static std::string fmt( X x, int prec ) { std::ostringstream o; o.precision( prec ); o << x; return o.str(); }
static bool numEq( const std::string& s, double v, int prec ) { if( s == fmt( v, prec ) ) return true; char *e; double x = std::strtod( s.c_str(), &e ); return e != s.c_str() && !*e && close( x, v, std::fabs( v ), std::pow( 10., 1.01 - prec )*.51 ); }
using pbt::close;

PBT( outputs, 8000, 100000, "solvers with random parameters on generated systems (with events or without) and on the test models, run through a configuration with up to three outputs of any kind, to a file or standard output, with random output interval, several times in a row; sometimes the system fails at a random evaluation; oracle: a record of the observers of the solver; "
     "outputs change nothing in the trajectory, statistics equal the counts, step and Newton lines and solution rows are exactly those due (written as soon as they are due), and nothing stays attached after the run; non-trivial: at least three steps and two outputs" )
{
    Dir dir; std::string id = c.pick( std::vector<std::string>{ "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "rosenbrock_w1", "rosenbrock_sw2_4", "gragg", "extrapolator", "i_euler" } ); auto sp = genSettings( c, tree( defaultsOf<Solver>( id ) ), 2, true ); if( id == "extrapolator" ) for( auto q : { "step_sequence", "reference_solver", "max_stages" } ) if( !sp.count( q ) ) { T t; t.v = q == std::string( "step_sequence" ) ? "harmonic" : q == std::string( "reference_solver" ) ? "gragg" : "3"; sp[q] = t; }
    for( auto q : { "predictor", "reference_solver" } ) if( sp.count( q ) ) sp[q].k.erase( "eventctl" );
    if( c.flip() ) { sp["eventctl"].v = "linear"; sp["eventctl"].nested = false; sp["eventctl"].k.clear(); }
    double h = c.logreal( 1e-3, .1 ); bool grid = c.chance( 1, 4 ); if( grid ) h = std::ldexp( 1., -c.range( 3, 9 ) ); sp["h_init"].v = PV( h ).value<std::string>(); sp["h_init"].nested = false; sp.erase( "h_min" );
    std::string model = c.chance( 1, 3 ) ? c.pick( std::vector<std::string>{ "oscillator", "coupled_nl_osc", "stiff_1d", "sliding_point", "bouncing_ball" } ) : "generated"; long failAt = model == "generated" && c.chance( 1, 5 ) ? c.range( 1, 60 ) : -1; auto fails = std::make_shared<long>( -1 );
    bool hybrid = c.flip(); Hybrid g; Smooth s; if( model == "generated" ) { if( hybrid ) g = genHybrid( c, false ); else { unsigned big = c.chance( 1, 3 ) ? c.range( 5, 14 ) : 4; s = genSmooth( c, big ); if( big > 4 && !s.nd ) { } } }
    g_setup = [&]( TestRhs& r ) { auto count = std::make_shared<long>( 0 ); auto bomb = [count,fails]( Vec v ) { if( ++*count == *fails ) throw std::runtime_error( "the system fails" ); return v; };
        if( hybrid ) { auto G = std::make_shared<Hybrid>( g ); r.nd = g.s.nd; r.n1 = g.s.n1; r.f = [G,bomb]( double t, const Vec& x ) { return bomb( G->f( t, x, G->mode ) ); }; r.flags = g.flags; r.zf = [G]( double t, const Vec& x ) { return G->zf( t, x ); }; r.sw = [G]( const int *tr, double, Vec& x ) { for( size_t i = 0; i < G->mode.size(); ++i ) if( tr[i] ) { G->mode[i] ^= 1; x[G->jump[i].first] *= G->jump[i].second; } }; }
        else { r.nd = s.nd; r.n1 = s.n1; auto q = s; r.f = [q,bomb]( double t, const Vec& x ) { return bomb( q.f( t, x ) ); }; } };
    auto build = [&]( Cfg& cfg ) { cfg.setValue( "rhs", model ); if( model == "sliding_point" ) cfg.setValue( "rhs.friction", "atan" ); cfg.setValue( "solver", PV( id, toParams( sp ) ) ); };
    Cfg cfg; build( cfg ); unsigned n = cfg.parameterProvider()->odeRhs()->varCount(), n2 = cfg.parameterProvider()->odeRhs()->secondOrderVarCount(); double t0 = c.flip() ? 0 : c.real( -1, 1 ), time = h*c.pick( std::vector<double>{ 0, .5, 1, 3, 10.5, 25 } ), timing = c.flip() ? 0 : h*c.logreal( .3, 20 ); if( grid ) { t0 = h*c.range( -12, 4 ); if( timing > 0 ) timing = h*c.pick( std::vector<double>{ .5, 1, 1.5, 2, 3, 4 } ); } if( c.chance( 1, 8 ) ) timing = -1; if( !c.chance( 1, 6 ) && timing > 0 ) timing = std::strtod( fmt( timing, 3 ).c_str(), nullptr );
    Vec x0( n ); for( auto& v : x0 ) v = c.real( -1, 1 ); if( model == "bouncing_ball" ) x0[0] = std::fabs( x0[0] )*.01, x0[1] = -std::fabs( x0[1] );
    cfg.setValue( "time", time ); cfg.setValue( "output_timing", timing ); time = cfg.parameterProvider()->odeSolverDuration(); timing = cfg.parameterProvider()->odeSolverOutputTiming();
    c.log << id << " " << show( sp ) << "\n" << model << ( model == "generated" ? " " + ( hybrid ? g.str() : s.str() ) : "" ) << "\nfrom t=" << t0 << " " << str( x0 ) << " for " << time << " output interval " << timing << "\n";
    struct Out { std::string kind, file; int lim; bool file16; int prec() const { return file.empty() ? 6 : 16; } }; std::vector<Out> outs; bool stdoutUsed = false;
    for( auto w : { "output_stats", "output_con", "output_file" } ) if( c.chance( 2, 3 ) ) { Out o; o.kind = c.pick( std::vector<std::string>{ "stats_full", "con_general", "con_solution", "con_solution", "con_solution_columnwise" } ); o.lim = c.pick( std::vector<int>{ 0, 1, 2, 3, 5, 100 } ); if( c.chance( 2, 3 ) || stdoutUsed ) o.file = dir.path + "/" + w; else stdoutUsed = true; cfg.setValue( w, o.kind ); bool ff = c.flip(); std::string p = w; if( ff ) cfg.setValue( p + ".file_name", o.file ); if( o.kind == "con_solution" ) { if( o.lim == 5 && c.flip() ) {} else cfg.setValue( p + ".size_half_lim", o.lim ); } if( o.kind == "con_solution_columnwise" ) cfg.setValue( p + ".max_steps", o.lim ); if( !ff ) cfg.setValue( p + ".file_name", o.file ); outs.push_back( o ); c.log << w << " " << o.kind << " " << ( o.file.empty() ? "stdout" : "file" ) << " limit " << o.lim << "\n"; }
    auto sc = cfg.apply( std::set<unsigned>(), t0, toV( x0 ) ); auto solver = sc.solver();
    // the same without outputs
    Cfg plain; build( plain ); auto psc = plain.apply( std::set<unsigned>(), t0, toV( x0 ) ); auto twin = psc.solver();
    std::vector<Rec> rec; long calls = 0, jcalls = 0, jacs = 0, depth = 0; bool jac = false; std::string odd; long stepsLeft = 0; std::vector<std::string> texts;
    auto o1 = cxx::makeScopedIdentifiedElement( solver->odeSolverPostObservers, [&]( const PostArg& a ) { Rec r; r.newton = false; r.t = a.solver()->initialTime(); r.x = toVec( a.solver()->initialState() ); r.h = a.stepSize(); r.err = a.errorNorm(); r.acc = a.stepAccepted(); r.changed = a.stepSizeChanged(); r.trunc = a.stepTruncated(); r.izf = a.izfTrunc(); r.tr = a.transitionType(); r.calls = calls; r.jcalls = jcalls; r.jacs = jacs; rec.push_back( r ); if( --stepsLeft < 0 ) throw std::runtime_error( "long enough" ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( solver->iterationObservers, [&]( unsigned k, const NewtonSolverInterface<VD> *q ) { Rec r; r.newton = true; r.it = k; r.alpha16 = fmt( q->iterationPerformer()->currentStepRatio(), 16 ); r.alpha6 = fmt( q->iterationPerformer()->currentStepRatio(), 6 ); r.status = q->iterationPerformer()->errorEstimator()->currentStatusMessage(); rec.push_back( r ); return false; } );
    auto o3 = cxx::makeScopedIdentifiedElement( sc.odeRhs()->odeRhsPreObservers, [&]( double, const V&, const Rhs * ) { ++depth; } );
    auto o4 = cxx::makeScopedIdentifiedElement( sc.odeRhs()->odeRhsPostObservers, [&]( double, const V&, const V&, const Rhs * ) { if( --depth < 0 ) odd = "the end of an evaluation without beginning"; ++calls; if( jac ) ++jcalls; } );
    auto o5 = cxx::makeScopedIdentifiedElement( solver->jacobianRefreshObservers, [&]( bool start ) { if( start == jac ) odd = start ? "Jacobian refresh begins twice" : "Jacobian refresh ends twice"; jac = start; if( !start ) ++jacs; } );
    size_t observers[5]; auto count = [&]( size_t *q ) { auto size = []( auto& o ) { size_t k = 0; for( auto& e : o ) { (void)e; ++k; } return k; }; q[0] = size( solver->odeSolverPostObservers ); q[1] = size( solver->iterationObservers ); q[2] = size( sc.odeRhs()->odeRhsPreObservers ); q[3] = size( sc.odeRhs()->odeRhsPostObservers ); q[4] = size( solver->jacobianRefreshObservers ); };
    count( observers ); int runs = c.range( 1, 2 ); std::vector<std::shared_ptr<Cfg>> plainAgain;
    for( int run = 0; run < runs; ++run ) {
        rec.clear(); calls = jcalls = jacs = depth = 0; jac = false; odd = ""; stepsLeft = 300; double start = solver->initialTime(); Vec xs = toVec( solver->initialState() ); std::string end; if( failAt > 0 && run == 0 ) *fails = failAt; std::string so;
        { Cout cap; try { solveOde( &cfg, &sc ); } catch( const std::exception& e ) { end = e.what(); } so = cap.s.str(); }
        *fails = -1; std::vector<Rec> steps; for( auto& r : rec ) if( !r.newton ) steps.push_back( r ); EXPECT( odd.empty() || !end.empty(), "observers", odd );
        c.log << "run " << run << ": " << steps.size() << " steps, ended by '" << end << "'\n";
        // the loop: until the requested time has passed
        double finish = start + time; for( size_t i = 0; i + 1 < steps.size(); ++i ) if( steps[i].acc ) EXPECT( steps[i].t < finish, "duration", "a step after t=" << steps[i].t << " when the end is " << finish ); if( end.empty() ) EXPECT( !steps.empty() && steps.back().t >= finish, "duration", "stopped before " << finish << " after " << steps.size() << " steps" );
        // the trajectory is that of the solver alone
        if( failAt < 0 ) { std::vector<std::pair<double,Vec>> tw; auto ot = cxx::makeScopedIdentifiedElement( twin->odeSolverPostObservers, [&]( const PostArg& a ) { tw.push_back( { a.solver()->initialTime(), toVec( a.solver()->initialState() ) } ); } ); std::string e; while( tw.size() < steps.size() && e.empty() ) try { twin->doStep(); } catch( const std::exception& q ) { e = q.what(); }
            for( size_t i = 0; i < steps.size(); ++i ) { EXPECT( i < tw.size(), "passive", "the solver alone fails at step " << i << ": " << e ); EXPECT( tw[i].first == steps[i].t && sameV( tw[i].second, steps[i].x ), "passive", "step " << i << " with outputs t=" << steps[i].t << " " << str( steps[i].x ) << ", without t=" << tw[i].first << " " << str( tw[i].second ) ); } }
        for( auto& o : outs ) {
            auto L = lines( o.file.empty() ? so : slurp( o.file ) ); int P = o.prec(); std::string all = o.file.empty() ? so : slurp( o.file ); EXPECT( all.empty() || all.back() == '\n', "line", "the text of " << o.kind << " does not end with a line end" );
            if( o.kind == "con_general" ) {
                double last = -INFINITY; unsigned k = 0; size_t li = 0; bool any = false;
                for( auto& r : rec ) {
                    if( r.newton ) { std::string w = "  Newton it. " + std::to_string( r.it + 1 ) + ", alpha=" + ( P == 16 ? r.alpha16 : r.alpha6 ) + ", " + r.status; EXPECT( li < L.size() && L[li] == w, "Newton", "line " << li << " is '" << ( li < L.size() ? L[li] : "missing" ) << "', expected '" << w << "'" ); ++li; continue; }
                    ++k; bool must = timing <= 0 || r.trunc || !any, may = must; if( !must ) { double q = ( r.t - last )/timing; must = q > 1 + 1e-9; may = q > 1 - 1e-9; }
                    bool is = li < L.size() && L[li].compare( 0, 5, "step " ) == 0 && std::atoi( L[li].c_str() + 5 ) == int( k ); if( &r == &rec.back() && !end.empty() && !is ) continue;      // the run ended inside the observers of this step
                    EXPECT( is ? may : !must, "due", "step " << k << " at t=" << r.t << " is " << ( is ? "reported" : "not reported" ) << ", the last one reported is at t=" << last << ", interval " << timing ); if( !is ) continue; any = true; last = r.t;
                    std::string w = "step " + std::to_string( k ) + ", time = " + fmt( r.t, P ) + ", h = " + fmt( r.h, P ) + ", err = " + fmt( r.err, P ) + ", " + ( r.acc ? "accepted" : "rejected" ); if( r.changed ) w += ", step size changed"; if( r.trunc ) { w += ", step truncated"; if( r.izf != ~0u ) w += " due to " + ( model == "generated" ? "event number " + std::to_string( r.izf ) : sc.odeRhs()->describeZeroFunction( r.izf ) ) + " " + ( r.tr > 0 ? "+" : r.tr < 0 ? "-" : "?" ); }
                    EXPECT( L[li] == w, "step", "line '" << L[li] << "', expected '" << w << "'" ); ++li;
                }
                EXPECT( li == L.size(), "lines", "extra line '" << L[li] << "'" );
            } else if( o.kind == "con_solution" ) {
                std::vector<unsigned> ix; auto grp = [&]( unsigned b, unsigned e ) { for( unsigned i = b; i < e; ++i ) if( e - b <= 2u*o.lim || i - b < unsigned( o.lim ) || e - i <= unsigned( o.lim ) ) ix.push_back( i ); }; if( n2 == 0 ) grp( 0, n ); else { grp( 0, n2 ); grp( n2, 2*n2 ); grp( 2*n2, n ); }
                std::string head = "time"; for( unsigned i : ix ) head += "\t" + ( n2 == 0 || i < n2 ? "x" + std::to_string( i ) : i < 2*n2 ? "v" + std::to_string( i - n2 ) : "z" + std::to_string( i - 2*n2 ) ); EXPECT( L.size() > 1 && L[0] == head, "header", "header '" << ( L.empty() ? "" : L[0] ) << "', expected '" << head << "'" );
                auto row = [&]( size_t li, double t, const Vec& x ) { if( li >= L.size() ) return false; auto q = cells( L[li] ); if( q.size() != ix.size() + 1 || !numEq( q[0], t, P ) ) return false; for( size_t i = 0; i < ix.size(); ++i ) if( !numEq( q[i+1], x[ix[i]], P ) ) return false; return true; };
                EXPECT( row( 1, start, xs ), "initial", "the first row is '" << L[1] << "', expected t=" << start << " " << str( xs ) ); double last = start; size_t li = 2;
                for( auto& r : steps ) if( r.acc ) { bool must = timing <= 0, may = must; if( !must ) { double q = ( r.t - last )/timing; must = q > 1 + 1e-9; may = q > 1 - 1e-9; } bool is = may && row( li, r.t, r.x ); if( &r == &steps.back() && !end.empty() && !is ) continue; EXPECT( is || !must, "row", "row " << li << " is '" << ( li < L.size() ? L[li] : "missing" ) << "', expected t=" << r.t << " " << str( r.x ) << ", the last row is at t=" << last ); if( is ) { last = r.t; ++li; } }
                EXPECT( li == L.size(), "rows", "extra row '" << L[li] << "', the last one due is at t=" << last << ", interval " << timing );
            } else if( !end.empty() ) { /* written at the end of the run */ }
            else if( o.kind == "con_solution_columnwise" ) {
                std::vector<std::pair<double,Vec>> col; EXPECT( L.size() == n + 2, "rows", L.size() << " lines for " << n << " variables" ); auto times = cells( L[1] ), head = cells( L[0] ); EXPECT( head.size() == times.size() && times.size() >= 2 && head[0] == "index" && head[1] == "name" && times[0] == "-1" && times[1] == "time", "header", "header '" << L[0] << "', '" << L[1] << "'" ); double last = start; size_t cn = times.size() - 2;
                auto due = [&]( double t, const Vec& x, bool first ) { if( col.size() >= unsigned( o.lim ) ) return; bool must = first || timing <= 0, may = must; if( !must ) { double q = ( t - last )/timing; must = q > 1 + 1e-9; may = q > 1 - 1e-9; } bool is = may && col.size() < cn && numEq( times[2+col.size()], t, P ); EXPECT( is || !must, "column", "column " << col.size() << " of " << cn << " is not t=" << t << ", the last one is t=" << last << ", interval " << timing ); if( is ) { col.push_back( { t, x } ); last = t; } };
                due( start, xs, true ); for( auto& r : steps ) if( r.acc ) due( r.t, r.x, false ); EXPECT( col.size() == cn, "columns", cn << " columns, expected " << col.size() );
                for( size_t k = 0; k < cn; ++k ) EXPECT( head[2+k] == "n" + std::to_string( k ), "header", "column " << k << " is named " << head[2+k] );
                for( unsigned i = 0; i < n; ++i ) { auto q = cells( L[i+2] ); std::string num = std::to_string( i ); unsigned width = std::to_string( n ).size(); EXPECT( q.size() == cn + 2 && q[0] == num && q[1] == "UNNAMED_" + std::string( width - num.size(), '0' ) + num, "name", "row of variable " << i << " is '" << L[i+2] << "'" ); for( size_t k = 0; k < cn; ++k ) EXPECT( numEq( q[2+k], col[k].second[i], P ), "value", "variable " << i << " at t=" << col[k].first << " is written as " << q[2+k] << ", is " << col[k].second[i] ); }
            } else {
                std::map<std::string,std::string> m; for( auto& l : L ) { size_t p = l.find( ": " ); if( l.compare( 0, 8, "TIMING: " ) == 0 ) p = l.find( ": ", 8 ); EXPECT( p != std::string::npos, "stats", "line '" << l << "'" ); EXPECT( !m.count( l.substr( 0, p ) ), "stats", "repeated line '" << l << "'" ); m[l.substr( 0, p )] = l.substr( p + 2 ); }
                long rej = 0, chg = 0, tru = 0; double sum = 0; for( auto& r : steps ) { rej += !r.acc; chg += r.changed; tru += r.trunc; if( r.acc ) sum += r.h; }
                auto is = [&]( const char *k, const std::string& w ) { EXPECT( m.count( k ) && m[k] == w, k, "'" << k << ": " << m[k] << "', expected '" << w << "'" ); }; auto pc = [&]( const char *k, long v ) { is( k, std::to_string( v ) + " (" + fmt( 100.*v/steps.size(), P ) + "%)" ); };
                is( "Total steps", std::to_string( steps.size() ) ); pc( "Rejected steps", rej ); pc( "Step changes", chg ); pc( "Truncated steps", tru ); EXPECT( m.count( "Average step size" ) && ( long( steps.size() ) == rej || numEq( m["Average step size"], sum/( steps.size() - rej ), P == 16 ? 15 : 6 ) ), "average", "average step size " << m["Average step size"] << ", expected " << sum/( steps.size() - rej ) );
                is( "Number of ODE RHS evaluations to refresh Jacobian", std::to_string( jcalls ) ); is( "Total number of ODE RHS evaluations", std::to_string( calls ) + " = " + std::to_string( calls - jcalls ) + " + " + std::to_string( jcalls ) ); EXPECT( m.count( "Total time" ), "time", "no total time" );
                auto cnt = [&]( const std::string& k, long v ) { bool has = m.count( k ); long got = 0; if( has ) { size_t p = m[k].find( "count = " ); if( p != std::string::npos ) got = std::atol( m[k].c_str() + p + 8 ); } EXPECT( has == ( v > 0 ) && got == v, "timing", k << ": '" << m[k] << "', expected the count " << v ); }; cnt( "TIMING: Jacobian", jacs ); cnt( "TIMING: ODE RHS", calls );
            }
        }
        c.nontrivial( steps.size() >= 3 && outs.size() >= 2 ); c.label( "ended by exception", !end.empty() ); for( auto& r : steps ) if( r.trunc ) { c.label( "truncated" ); break; } for( auto& r : steps ) if( !r.acc ) { c.label( "rejected" ); break; }
        if( end.empty() ) { size_t q[5]; count( q ); for( int i = 0; i < 5; ++i ) EXPECT( q[i] == observers[i], "attached", q[i] << " observers after the run, " << observers[i] << " before" ); } else if( c.flip() || hybrid || end != "the system fails" ) break;
        if( !end.empty() ) { failAt = -1; solver->setInitialState( t0, toV( x0 ) ); solver->setInitialStepSize( h ); plainAgain.push_back( std::make_shared<Cfg>() ); build( *plainAgain.back() ); twin = plainAgain.back()->apply( std::set<unsigned>(), t0, toV( x0 ) ).solver(); twin->setInitialStepSize( h ); depth = 0; c.label( "again after a failure" ); }
    }
    for( auto& o : outs ) c.label( o.kind ); c.label( id );
}

PBT( files, 3000, 20000, "configurations with an output whose file cannot be opened (missing directory, a directory); oracle: an exception naming the file before the first step; after correction of the name the run goes on; non-trivial: always" )
{
    Dir dir; g_setup = []( TestRhs& r ) { r.nd = 0; r.n1 = 1; r.f = []( double, const Vec& x ) { return Vec{ -x[0] }; }; }; Cfg cfg; cfg.setValue( "rhs", "generated" ); cfg.setValue( "solver", "euler" ); cfg.setValue( "time", .1 ); std::string w = c.pick( std::vector<std::string>{ "output_stats", "output_con", "output_file" } ), k = c.pick( std::vector<std::string>{ "stats_full", "con_general", "con_solution", "con_solution_columnwise" } ); std::string bad = c.flip() ? dir.path + "/none/x" : dir.path; c.log << w << " " << k << " " << bad; cfg.setValue( w, k ); cfg.setValue( w + ".file_name", bad );
    auto sc = cfg.apply( std::set<unsigned>(), 0, toV( { 1. } ) ); bool thrown = false; std::string what; try { solveOde( &cfg, &sc ); } catch( const cxx::exception& e ) { thrown = true; what = e.what(); } EXPECT( thrown && what.find( bad ) != std::string::npos, "open", "the file cannot be opened, " << ( thrown ? "message: " + what : "no exception" ) ); EXPECT( sc.solver()->initialTime() == 0, "open", "steps have been done" );
    std::string good = dir.path + "/good"; cfg.setValue( w + ".file_name", good ); solveOde( &cfg, &sc ); EXPECT( sc.solver()->initialTime() >= .1 && !slurp( good ).empty(), "open", "nothing is written after the name was corrected" ); c.nontrivial();
}
