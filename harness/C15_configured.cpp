// C15 - solvers behave as configured, whichever way they have been configured
#include "params.h"

struct Tr { std::vector<double> t; std::vector<Vec> x; std::string end; };
static Tr follow( Solver& s, int steps ) { Tr r; for( int i = 0; i < steps; ++i ) { try { s.doStep(); } catch( const std::exception& e ) { r.end = e.what(); break; } r.t.push_back( s.initialTime() ); r.x.push_back( toVec( s.initialState() ) ); if( !( norm( r.x.back() ) < 1e6 ) ) break; } return r; }
static std::string differ( const Tr& a, const Tr& b ) { std::ostringstream o; o.precision( 17 ); for( size_t i = 0; i < std::min( a.t.size(), b.t.size() ); ++i ) if( a.t[i] != b.t[i] || !sameV( a.x[i], b.x[i] ) ) { o << "step " << i << ": t=" << b.t[i] << " " << str( b.x[i] ) << ", expected t=" << a.t[i] << " " << str( a.x[i] ); return o.str(); } if( a.t.size() != b.t.size() || a.end != b.end ) o << b.t.size() << " steps, ended by '" << b.end << "', expected " << a.t.size() << " and '" << a.end << "'"; return o.str(); }
PBT( behaviour, 12000, 200000, "solvers and models with random parameters: configured at once, parameter by parameter in any order, through a configuration by paths in any order, or from the parameters another one reports; with a specified or an explicitly given initial state, with and without reference solver; oracle: all go through exactly the same steps from the given state; "
     "a state of wrong size, a missing right hand side or solver is refused; non-trivial: at least two solver parameters are set and two steps taken" )
{
    std::string id = c.pick( Factory<Solver>::registeredTypes() ), model = c.pick( Factory<Rhs>::registeredTypes() ); auto sp = genSettings( c, tree( defaultsOf<Solver>( id ) ), 2, true ), mp = genSettings( c, tree( defaultsOf<Rhs>( model ) ), 1, true ); if( id == "extrapolator" ) { for( auto q : { "step_sequence", "reference_solver", "max_stages" } ) if( !sp.count( q ) ) { T t; t.v = q == std::string( "step_sequence" ) ? "harmonic" : q == std::string( "reference_solver" ) ? "gragg" : "3"; sp[q] = t; } }
    for( auto q : { "predictor", "reference_solver" } ) if( sp.count( q ) ) sp[q].k.erase( "eventctl" ); c.log << id << " " << show( sp ) << "\n" << model << " " << show( mp ) << "\n";
    auto r = Factory<Rhs>::newInstance( model ); r->setParameters( toParams( mp ) ); unsigned n = r->varCount(); double t = c.real( -1, 1 ); Vec x( n ); for( auto& v : x ) v = c.real( -1, 1 ); if( model == "bouncing_ball" ) x[1] = std::fabs( x[1] ) + .1, x[0] = std::fabs( x[0] ) + .1; c.log << "t " << t << " " << str( x ) << "\n"; int steps = c.range( 1, 6 );
    auto fresh = [&] { auto q = Factory<Rhs>::newInstance( model ); q->setParameters( toParams( mp ) ); return q; };
    auto s0 = makeSolver( id, toParams( sp ) ); s0->setOdeRhs( r ); s0->setInitialState( t, toV( x ) ); Params rep = s0->parameters(); Tr ref = follow( *s0, steps );
    { auto s = makeSolver( id ); std::vector<std::string> names; for( auto& e : sp ) names.push_back( e.first ); bool late = c.flip() && id != "i_euler"; if( late ) s->setOdeRhs( fresh() ); for( auto i : c.perm( names.size() ) ) { std::map<std::string,T> a; a[names[i]] = sp[names[i]]; s->setParameters( toParams( a ) ); } if( !late ) s->setOdeRhs( fresh() ); s->setInitialState( t, toV( x ) ); std::string d = differ( ref, follow( *s, steps ) ); EXPECT( d.empty(), "one by one", id << " configured parameter by parameter: " << d ); }
    { auto s = makeSolver( id, rep ); s->setOdeRhs( fresh() ); s->setInitialState( t, toV( x ) ); std::string d = differ( ref, follow( *s, steps ) ); EXPECT( d.empty(), "clone", id << " with the reported parameters: " << d ); }
    { auto q = Factory<Rhs>::newInstance( model ); q->setParameters( r->parameters() ); auto s = makeSolver( id, toParams( sp ) ); s->setOdeRhs( q ); s->setInitialState( t, toV( x ) ); std::string d = differ( ref, follow( *s, steps ) ); EXPECT( d.empty(), "model", model << " with the reported parameters: " << d ); }
    {
        Cfg cfg; std::vector<std::function<void()>> ops; bool refToo = c.flip(), spec = c.flip(), modelLate = c.flip();
        auto add = [&]( const std::string& root, const std::string& type, const std::map<std::string,T>& k ) { cfg.setValue( root, c.flip() ? PV( type, toParams( k ) ) : PV( type ) ); for( auto& e : k ) { std::string p = root + "." + e.first; T v = e.second; ops.push_back( [&cfg,p,v] { cfg.setValue( p, v.nested ? PV( v.v, toParams( v.k ) ) : PV( v.v ) ); } ); } };
        if( !modelLate ) add( "rhs", model, mp ); add( "solver", id, sp ); if( modelLate ) add( "rhs", model, mp ); if( refToo ) { cfg.setValue( "reference_solver", PV( id, toParams( sp ) ) ); }
        if( spec ) { cfg.setValue( "init_state", "specified" ); cfg.setValue( "init_state.size", int( n ) ); for( unsigned i = 0; i < n; ++i ) { double v = x[i]; std::string p = "init_state.x" + std::to_string( i ); ops.push_back( [&cfg,p,v] { cfg.setValue( p, v ); } ); } ops.push_back( [&cfg,t] { cfg.setValue( "init_state.time", t ); } ); }
        for( auto i : c.perm( ops.size() ) ) ops[i](); if( c.chance( 1, 3 ) ) { Vec y = x; for( auto& v : y ) v += c.real( 0, 1 ); auto before = cfg.apply( std::set<unsigned>(), spec ? 98 : t + 1, spec ? V() : toV( y ) ); c.label( "applied twice" ); if( c.flip() ) EXPECT( before.solver() == cfg.parameterProvider()->solver(), "apply", "another solver" ); } auto sc = cfg.apply( std::set<unsigned>(), spec ? 99 : t, spec ? V() : toV( x ) ); EXPECT( sc.solver() && sc.odeRhs() && sc.solver()->odeRhs() == sc.odeRhs() && sc.odeRhs() == cfg.parameterProvider()->odeRhs() && (bool)sc.refSolver() == refToo, "apply", "solver and system of the configuration" ); EXPECT( sc.solver()->initialTime() == t && sameV( toVec( sc.solver()->initialState() ), x ), "apply", "initial state is t=" << sc.solver()->initialTime() << " " << str( toVec( sc.solver()->initialState() ) ) );
        if( refToo && c.flip() ) { EXPECT( sc.refSolver() != sc.solver(), "apply", "reference solver is the solver" ); std::string d = differ( ref, follow( *sc.refSolver(), steps ) ); EXPECT( d.empty(), "reference", id << " as reference solver: " << d ); } else { std::string d = differ( ref, follow( *sc.solver(), steps ) ); EXPECT( d.empty(), "configuration", id << " and " << model << " through a configuration: " << d ); }
        if( spec && c.flip() ) { cfg.setValue( "init_state.size", int( n + ( c.flip() && n ? -1 : 1 ) ) ); EXPECT_THROW( cfg.apply( std::set<unsigned>(), 0, V() ), "size", "an initial state of wrong size is accepted" ); }
        if( c.chance( 1, 4 ) ) { cfg.setValue( c.flip() ? "rhs" : "solver", "" ); EXPECT_THROW( cfg.apply( std::set<unsigned>(), t, toV( x ) ), "missing", "a configuration without right hand side or solver is applied" ); }
    }
    c.nontrivial( sp.size() > 1 && ref.t.size() > 1 ); c.label( id ); c.label( model ); c.label( "ended by exception", !ref.end.empty() );
}

PBT( newton, 12000, 200000, "Newton solvers with random components and parameters on smooth systems: configured at once before the mapping is set, or parameter by parameter in any order before or after it, or with the parameters another one reports; oracle: all go through exactly the same iterations; non-trivial: at least two components or parameters set, two iterations" )
{
    auto b = genBenign( c, 5 ); auto d = tree( defaultsOf<NewtonSolverInterface<VD>>( "newton" ) ); auto sp = genSettings( c, d, 2, true ); Vec x0( b.s.n ); for( auto& v : x0 ) v = c.real( -2, 2 ); c.log << show( sp ) << "\n" << b.s.str() << " from " << str( x0 ) << "\n"; auto mk = [&] { auto m = std::make_shared<SystemMapping>(); m->s = b.s; return m; };
    typedef std::shared_ptr<NewtonSolverInterface<VD>> N; auto go = [&]( N n ) { Tr r; auto o = cxx::makeScopedIdentifiedElement( n->iterationObservers, [&]( unsigned k, const NewtonSolverInterface<VD> *q ) { auto p = q->iterationPerformer(); r.t.push_back( k ); Vec y = toVec( q->currentSolution() ), z = toVec( p->currentResidual() ); y.insert( y.end(), z.begin(), z.end() ); y.push_back( std::isnan( p->currentStepRatio() ) ? -7 : p->currentStepRatio() ); r.x.push_back( y ); return false; } ); try { n->setInitialGuess( toV( x0 ) ); r.end = std::to_string( int( n->run() ) ); r.t.push_back( 0 ); r.x.push_back( toVec( n->currentSolution() ) ); } catch( const std::exception& e ) { r.end = e.what(); } return r; };
    auto mkN = [] { return Factory<NewtonSolverInterface<VD>>::newInstance( "newton" ); }; N n0 = mkN(); n0->setParameters( toParams( sp ) ); n0->setComponent( std::shared_ptr<VectorMapping<VD>>( mk() ) ); Params rep = n0->parameters(); Tr ref = go( n0 );
    { N n = mkN(); bool first = c.flip(); if( first ) n->setComponent( std::shared_ptr<VectorMapping<VD>>( mk() ) ); std::vector<std::string> names; for( auto& e : sp ) names.push_back( e.first ); for( auto i : c.perm( names.size() ) ) { std::map<std::string,T> a; a[names[i]] = sp[names[i]]; n->setParameters( toParams( a ) ); } if( !first ) n->setComponent( std::shared_ptr<VectorMapping<VD>>( mk() ) ); std::string q = differ( ref, go( n ) ); EXPECT( q.empty(), "one by one", "configured parameter by parameter" << ( first ? " after the mapping" : "" ) << ": " << q ); }
    { N n = mkN(); bool first = c.flip(); if( first ) n->setComponent( std::shared_ptr<VectorMapping<VD>>( mk() ) ); n->setParameters( rep ); if( !first ) n->setComponent( std::shared_ptr<VectorMapping<VD>>( mk() ) ); if( c.flip() ) n->setParameters( n->parameters() ); std::string q = differ( ref, go( n ) ); EXPECT( q.empty(), "clone", "with the reported parameters" << ( first ? " set after the mapping" : "" ) << ": " << q ); }
    c.nontrivial( sp.size() > 1 && ref.t.size() > 2 );
}
