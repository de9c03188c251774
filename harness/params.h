// Parameter trees of every registered component: generation, model of setting, comparison
#pragma once
#include "ode_common.h"
#include "nl_common.h"
#include "ode_num_int/ode/OdeSolverConfiguration.h"
#include <limits>

typedef OptionalParameters OP; typedef OP::Value PV;
struct T { std::string v; bool nested = false, comp = false; std::map<std::string,T> k; };
static void toTree( const Params& p, std::map<std::string,T>& r ) { r.clear(); for( auto& e : p ) { T t; t.v = e.second.value<std::string>(); t.comp = (bool)e.second.typeRegistryGetter(); if( auto n = e.second.nestedParameters() ) { t.nested = true; toTree( *n, t.k ); } r[e.first] = t; } }
static std::map<std::string,T> tree( const Params& p ) { std::map<std::string,T> r; toTree( p, r ); return r; }
static std::string show( const std::map<std::string,T>& t ) { std::string s = "{"; for( auto& e : t ) { s += " " + e.first + "=" + e.second.v; if( e.second.nested ) s += show( e.second.k ); } return s + " }"; }
static Params toParams( const std::map<std::string,T>& t ) { Params p; for( auto& e : t ) p[e.first] = e.second.nested ? PV( e.second.v, toParams( e.second.k ) ) : PV( e.second.v ); return p; }
static bool equal( const std::map<std::string,T>& a, const std::map<std::string,T>& b ) { if( a.size() != b.size() ) return false; for( auto& e : a ) { auto i = b.find( e.first ); if( i == b.end() || i->second.v != e.second.v || i->second.nested != e.second.nested || !equal( e.second.k, i->second.k ) ) return false; } return true; }
typedef std::function<Params( const std::string& )> Defaults;
template<class I> static Params defaultsOf( const std::string& t ) { auto o = Factory<I>::newInstance( t ); auto op = dynamic_cast<OP*>( o.get() ); return op ? op->parameters() : Params(); }
struct Itf { std::function<std::vector<std::string>()> types; Defaults defaults; std::function<std::shared_ptr<void>( const std::string&, OP*& )> make; };
template<class I> static Itf itf() { return { &Factory<I>::registeredTypes, &defaultsOf<I>, []( const std::string& t, OP*& op ) { auto o = Factory<I>::newInstance( t ); op = dynamic_cast<OP*>( o.get() ); return std::shared_ptr<void>( o ); } }; }
static std::map<std::string,Itf>& itfs()        // by the name of the parameter that holds such a component
{
    static std::map<std::string,Itf> m{ { "solver", itf<Solver>() }, { "reference_solver", itf<Solver>() }, { "predictor", itf<Solver>() }, { "rhs", itf<Rhs>() }, { "init_state", itf<OdeInitState<VD>>() }, { "output_stats", itf<OdeSolverOutputOption<VD>>() }, { "output_con", itf<OdeSolverOutputOption<VD>>() }, { "output_file", itf<OdeSolverOutputOption<VD>>() },
        { "algsolver", itf<NewtonSolverInterface<VD>>() }, { "itperf", itf<NewtonIterationPerformer<VD>>() }, { "ddir", itf<NewtonDescentDirection<VD>>() }, { "jacobian", itf<JacobianProvider<VD>>() }, { "jtrim", itf<JacobianTrimmer<VD>>() }, { "linsearch", itf<NewtonLinearSearch<VD>>() }, { "err", itf<ErrorEstimator<VD>>() },
        { "eventctl", itf<OdeEventController<VD>>() }, { "stepsizectl", itf<OdeStepSizeController<VD>>() }, { "enorm", itf<ErrorNormCalculator<VD>>() }, { "step_sequence", itf<ExtrapolatorStepSequence>() }, { "regularizer", itf<NewtonRegularizationStrategy<VD>>() }, { "reorder", itf<VectorReorderingMapping<VD>>() } };
    return m;
}
static const std::set<std::string> unsignedNames{ "max_iterations", "max_stages", "predictor_steps", "width", "n", "size_half_lim", "max_steps", "lazy_iterations" }, stringNames{ "file_name", "simout_basename" }, optionalNames{ "reference_solver", "predictor", "rhs", "init_state", "output_stats", "output_con", "output_file", "jtrim", "eventctl", "stepsizectl", "enorm", "step_sequence", "regularizer", "reorder" };
enum Kind { Comp, Uns, Int, Str, Mode, Fric, Bool, Dbl };
static Kind kindOf( const std::string& name, const T& t ) { if( t.comp ) return Comp; if( unsignedNames.count( name ) ) return Uns; if( name == "size" ) return Int; if( stringNames.count( name ) ) return Str; if( name == "mode" ) return Mode; if( name == "friction" ) return Fric; if( t.v == "true" || t.v == "false" ) return Bool; return Dbl; }
// canonical form of what is reported for a value
static std::string canon( Kind k, const std::string& s ) { switch( k ) { case Uns: case Int: return std::to_string( std::strtol( s.c_str(), nullptr, 10 ) ); case Bool: return s == "1" ? "true" : s == "0" ? "false" : s; case Dbl: { std::ostringstream o; o.precision( 17 ); o << std::strtod( s.c_str(), nullptr ); return o.str(); } default: return s; } }
static std::map<std::string,T> applied( const std::map<std::string,T>& base, const std::map<std::string,T>& set );
static void setNode( const std::string& name, T& dst, const T& given )     // dst: what is reported now, given: what is set
{
    dst.v = given.v; if( dst.comp ) { dst.k.clear(); dst.nested = false; if( !given.v.empty() ) { auto& i = itfs().at( name ); OP *op = nullptr; auto o = i.make( given.v, op ); if( op ) { dst.nested = true; dst.k = tree( op->parameters() ); if( given.nested ) dst.k = applied( dst.k, given.k ); } } }
}
static void resizeState( std::map<std::string,T>& r ) { int n = std::atoi( r["size"].v.c_str() ); for( auto it = r.begin(); it != r.end(); ) if( it->first[0] == 'x' && std::atoi( it->first.c_str() + 1 ) >= n ) it = r.erase( it ); else ++it; for( int i = 0; i < n; ++i ) { auto& t = r["x" + std::to_string( i )]; if( t.v.empty() ) t.v = "0"; } }
static std::map<std::string,T> applied( const std::map<std::string,T>& base, const std::map<std::string,T>& set )
{
    auto r = base; auto size = set.find( "size" ); if( size != set.end() && r.count( "size" ) ) { r["size"].v = size->second.v; resizeState( r ); }
    auto jac = set.find( "jacobian" ); if( jac != set.end() && r.count( "jtrim" ) && !set.count( "jtrim" ) ) { r["jtrim"].v = ""; r["jtrim"].k.clear(); r["jtrim"].nested = false; }
    for( auto& e : set ) { auto it = r.find( e.first ); if( it != r.end() && e.first != "size" ) setNode( e.first, it->second, e.second ); }
    return r;
}
// difference of two trees as far as it means something; events of auxiliary solvers are switched off by their owner
static std::string differ( const std::map<std::string,T>& a, const std::map<std::string,T>& b, const std::string& path = "" )
{
    for( auto& e : a ) { std::string p = path + e.first; auto i = b.find( e.first ); if( i == b.end() ) return p + " is missing"; auto& t = e.second; auto& u = i->second; if( e.first == "eventctl" && ( path.find( "predictor." ) != std::string::npos || path.find( "reference_solver." ) != std::string::npos ) ) continue;
        Kind k = kindOf( e.first, u ); if( canon( k, t.v ) != canon( k, u.v ) ) return p + " is '" + u.v + "', expected '" + t.v + "'"; if( t.comp != u.comp ) return p + ": component or not"; std::string d = differ( t.k, u.k, p + "." ); if( !d.empty() ) return d; }
    for( auto& e : b ) if( !a.count( e.first ) ) return path + e.first + " has appeared"; return "";
}
static std::map<std::string,T> genSettings( pbt::Ctx& c, const std::map<std::string,T>& now, int depth, bool sane );
static T genValue( pbt::Ctx& c, const std::string& name, const T& now, int depth, bool sane )
{
    T t; switch( kindOf( name, now ) ) {
    case Comp: { auto types = itfs().at( name ).types(); if( types.empty() || ( optionalNames.count( name ) && c.chance( 1, 5 ) && !sane ) ) return t; if( depth <= 0 && ( name == "predictor" || name == "reference_solver" ) ) types = { "euler" };
            if( sane ) { if( name == "predictor" ) types = { "euler", "rk4" }; if( name == "reference_solver" ) types = { "euler", "gragg", "rk4" }; if( name == "jtrim" ) return t; }
            t.v = c.pick( types ); auto d = tree( itfs().at( name ).defaults( t.v ) ); if( c.flip() ) { t.nested = true; t.k = genSettings( c, d, depth-1, sane ); } break; }
    case Uns: t.v = std::to_string( sane ? std::max( 2, std::atoi( now.v.c_str() ) + c.range( -1, 2 ) ) : c.pick( std::vector<int>{ c.range( 0, 9 ), c.range( 0, 100000 ) } ) ); if( c.chance( 1, 6 ) ) t.v = "+" + t.v; break;
    case Int: t.v = std::to_string( c.range( 0, 5 ) ); break;
    case Str: t.v = c.pick( std::vector<std::string>{ "", "a.txt", "x y", "1" } ); break;
    case Mode: t.v = c.flip() ? "high" : "low"; break; case Fric: t.v = c.pick( std::vector<std::string>{ "atan", "tabular", "linear" } ); break; case Bool: t.v = c.pick( std::vector<std::string>{ "true", "false", "0", "1" } ); break;
    default: if( sane ) { double x = std::strtod( now.v.c_str(), nullptr ); t.v = PV( x == 0 ? ( name.find( "threshold" ) != std::string::npos || name == "h_after_switch" ? 0 : c.real( 0, 1 ) ) : name == "alpha" || name == "d" || name == "insurance" ? x*c.real( .8, 1 ) : name == "inc_min_factor" || name == "inc_max_factor" || name == "dec_max_factor" ? x*c.real( .95, 1.05 ) : x*c.real( .5, 2 ) ).value<std::string>(); }
        else t.v = c.pick( std::vector<std::string>{ PV( c.num() ).value<std::string>(), PV( c.real( -5, 5 ) ).value<std::string>(), PV( c.logreal( 1e-9, 1e9 ) ).value<std::string>(), "1e-3", "+.5", "7.", "0", "-2E+2" } );
    }
    return t;
}
static std::map<std::string,T> genSettings( pbt::Ctx& c, const std::map<std::string,T>& now, int depth, bool sane ) { std::map<std::string,T> r; for( auto& e : now ) if( c.chance( 1, 3 ) && !( depth <= 0 && e.second.comp && ( e.first == "predictor" || e.first == "reference_solver" || e.first == "algsolver" ) ) ) r[e.first] = genValue( c, e.first, e.second, depth, sane ); if( r.count( "size" ) ) { int n = std::atoi( r["size"].v.c_str() ); for( int i = 0; i < n; ++i ) if( c.flip() ) { T t; t.v = PV( c.real( -2, 2 ) ).value<std::string>(); r["x" + std::to_string( i )] = t; } } return r; }
static bool badValue( pbt::Ctx& c, const std::string& name, const T& now, T& t )
{
    switch( kindOf( name, now ) ) { case Comp: t.v = c.pick( std::vector<std::string>{ "no_such_type", "RK4", " ", "linear " } ); return true; case Uns: t.v = c.pick( std::vector<std::string>{ "1.5", "abc", "", "-1", "5000000000", "1 " } ); return true; case Int: t.v = c.pick( std::vector<std::string>{ "1.5", "x", "-3", "" } ); return true; case Str: return false; case Mode: case Fric: t.v = c.pick( std::vector<std::string>{ "", "medium", "High" } ); return true; case Bool: t.v = c.pick( std::vector<std::string>{ "yes", "2", "", "True" } ); return true; default: t.v = c.pick( std::vector<std::string>{ "abc", "", "1.5x", "1,5", "--1", " 1" } ); return true; }
}
typedef OdeSolverConfiguration<VD> Cfg;
