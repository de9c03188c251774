// C18 - parameters and configuration: text values, parameter trees, every registered type, OdeSolverConfiguration
#define ODE_KEEP_REGEX
#include "plain_regex.h"
#include "params.h"

// ---- A. text <-> value
static bool dig( char ch ) { return ch >= '0' && ch <= '9'; }
static size_t skipSign( const std::string& s ) { return !s.empty() && ( s[0] == '+' || s[0] == '-' ) ? 1 : 0; }
static bool isInt( const std::string& s ) { size_t i = skipSign( s ); if( i == s.size() ) return false; for( ; i < s.size(); ++i ) if( !dig( s[i] ) ) return false; return true; }
static bool isNum( const std::string& s )
{
    size_t i = skipSign( s ), n = 0; for( ; i < s.size() && dig( s[i] ); ++i ) ++n; if( i < s.size() && s[i] == '.' ) { ++i; for( ; i < s.size() && dig( s[i] ); ++i ) ++n; }
    if( !n ) return false; if( i == s.size() ) return true; if( s[i] != 'e' && s[i] != 'E' ) return false; return isInt( s.substr( i+1 ) );
}
static bool isHex( const std::string& s ) { for( char ch : s ) if( !dig( ch ) && !( ch >= 'a' && ch <= 'f' ) && !( ch >= 'A' && ch <= 'F' ) ) return false; return !s.empty(); }
static bool isId( const std::string& s ) { for( size_t i = 0; i < s.size(); ++i ) { char ch = s[i]; bool a = ( ch >= 'a' && ch <= 'z' ) || ( ch >= 'A' && ch <= 'Z' ) || ch == '_'; if( !a && !( i && dig( ch ) ) ) return false; } return !s.empty(); }
static std::string genText( pbt::Ctx& c )
{
    static const std::string chars = "0123456789+-.eE _aFgzZ[^`@x\tn";
    switch( c.pickw( { 3, 3, 3, 2, 1, 1 } ) ) {
    case 0: { std::string s; int n = c.range( 0, 8 ); for( int i = 0; i < n; ++i ) s += chars[c.range( 0, (int)chars.size() - 1 )]; return s; }
    case 1: { std::string s = c.pick( std::vector<std::string>{ "", "+", "-" } ); int n = c.range( 0, 11 ); for( int i = 0; i < n; ++i ) s += char( '0' + c.range( 0, 9 ) ); return s; }
    case 2: { std::string s = c.pick( std::vector<std::string>{ "", "+", "-" } ); int n = c.range( 0, 4 ), m = c.range( 0, 4 ); for( int i = 0; i < n; ++i ) s += char( '0' + c.range( 0, 9 ) ); if( c.flip() ) s += '.'; for( int i = 0; i < m; ++i ) s += char( '0' + c.range( 0, 9 ) ); if( c.flip() ) { s += c.flip() ? 'e' : 'E'; s += c.pick( std::vector<std::string>{ "", "+", "-" } ); int k = c.range( 0, 2 ); for( int i = 0; i < k; ++i ) s += char( '0' + c.range( 0, 9 ) ); } return s; }
    case 3: { std::string s; int n = c.range( 1, 6 ); for( int i = 0; i < n; ++i ) s += c.pick( std::vector<char>{ 'a', 'b', 'Z', 'q', '_', '0', '9', '[', '\\', 'F' } ); return s; }
    case 4: return c.pick( std::vector<std::string>{ "true", "false", "0", "1", "True", "FALSE", "yes", "no", "", " 1", "1 ", "00", "01", "10", "truefalse" } );
    default: return c.pick( std::vector<std::string>{ "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "5000000000", "99999999999999999999", "-1", "-0", "1e308", "1e309", "nan", "inf", "-inf", "0x10", "1,5", "1.5.2", "1e5.5", "." } );
    }
}
template<class T> static bool get( const PV& v, T& dst ) { try { dst = v.value<T>(); return true; } catch( const std::exception& ) { return false; } }
PBT( text, 12000, 300000, "texts that are numbers, integers, identifiers, booleans, close to them, at the limits of the types, or arbitrary characters, read as every type; oracle: a hand-written grammar, strtod and exact integer conversion - valid text gives the value, invalid or out of range text an exception; "
     "non-trivial: the text is valid as a number, or differs from one that is by one character" )
{
    std::string s = genText( c ); c.log << "'" << s << "'\n"; PV v = c.flip() ? PV( s ) : PV( s.c_str() ); bool num = isNum( s ), in = isInt( s );
    EXPECT( lang::IsNumber( s.c_str() ) == num, "number", "IsNumber('" << s << "')" ); EXPECT( lang::IsIntegerNumber( s.c_str() ) == in, "integer", "IsIntegerNumber('" << s << "')" ); EXPECT( lang::IsHexIntegerNumber( s.c_str() ) == isHex( s ), "hex", "IsHexIntegerNumber('" << s << "')" ); EXPECT( lang::IsIdentifier( s.c_str() ) == isId( s ), "identifier", "IsIdentifier('" << s << "')" );
    std::string back; EXPECT( get( v, back ) && back == s && std::string( v ) == s, "string", "'" << s << "' is stored as '" << back << "'" ); std::ostringstream o; o << v; EXPECT( o.str() == s, "string", "'" << s << "' is written as '" << o.str() << "'" );
    double x = 0; bool ok = get( v, x ); if( !num ) EXPECT( !ok, "number", "'" << s << "' is accepted as the number " << x ); else { double e = std::strtod( s.c_str(), nullptr ); if( std::isinf( e ) ) EXPECT( !ok || x == e, "number", "'" << s << "' gives " << x ); else if( e == 0 || std::fabs( e ) > 1e-300 ) EXPECT( ok && x == e, "number", "'" << s << "' gives " << ( ok ? std::to_string( x ) : "an exception" ) ); }
    long double big = in ? std::strtold( s.c_str(), nullptr ) : 0; int i = 0; ok = get( v, i ); bool fit = in && big >= std::numeric_limits<int>::min() && big <= std::numeric_limits<int>::max(); EXPECT( ok == fit && ( !ok || i == big ), "integer", "'" << s << "' as an integer gives " << ( ok ? std::to_string( i ) : "an exception" ) );
    unsigned u = 0; ok = get( v, u ); fit = in && big >= 0 && big <= std::numeric_limits<unsigned>::max(); EXPECT( ok == fit && ( !ok || u == big ), "unsigned", "'" << s << "' as an unsigned integer gives " << ( ok ? std::to_string( u ) : "an exception" ) );
    bool b = false; ok = get( v, b ); bool t = s == "1" || s == "true", f = s == "0" || s == "false"; EXPECT( ok == ( t || f ) && ( !ok || b == t ), "boolean", "'" << s << "' as a boolean" );
    bool near = num; for( size_t k = 0; k < s.size() && !near; ++k ) near = isNum( s.substr( 0, k ) + s.substr( k+1 ) ); c.nontrivial( near ); c.label( "number", num ); c.label( "integer", in ); c.label( "identifier", isId( s ) );
}
PBT( roundtrip, 12000, 300000, "values of every type (random bit patterns of doubles included) stored as a parameter and read back, also through a copy, an assignment and the text: the same value; non-trivial: the double needs more than 15 digits" )
{
    double x; if( c.flip() ) { uint64_t b = 0; for( int i = 0; i < 8; ++i ) b = b*256 + c.range( 0, 255 ); std::memcpy( &x, &b, 8 ); if( !std::isfinite( x ) || ( x != 0 && std::fabs( x ) < 1e-300 ) ) x = 1; } else x = c.pick( std::vector<double>{ c.num(), c.real( -10, 10 ), c.logreal( 1e-12, 1e12 ), c.range( -100, 100 )*.1, c.range( -1000000, 1000000 )*1e-3 } );
    PV v( x ), w; w = v; PV q( w ), r( q.value<std::string>() ); double y = 0; for( const PV *p : { &v, &w, &q, &r } ) EXPECT( get( *p, y ) && y == x && std::signbit( x ) == std::signbit( y ), "double", std::setprecision( 17 ) << x << " is stored as '" << *p << "'" );
    int i = (int)( c.range( 0, 65535 )*65536u + (unsigned)c.range( 0, 65535 ) ); unsigned u = i; bool b = c.flip(); EXPECT( PV( i ).value<int>() == i && PV( PV( i ).value<std::string>() ).value<int>() == i, "integer", i ); EXPECT( PV( u ).value<unsigned>() == u, "unsigned", u ); EXPECT( PV( b ).value<bool>() == b, "boolean", b ); EXPECT( PV( i ).value<std::string>() == std::to_string( i ) && PV( u ).value<std::string>() == std::to_string( u ), "integer", i << " is stored as " << PV( i ) );
    EXPECT( !v.nestedParameters() && v.safeNestedParameters().empty() && !v.typeRegistryGetter(), "nested", "a number has nested parameters" ); std::ostringstream o; o.precision( 15 ); o << x; c.nontrivial( std::strtod( o.str().c_str(), nullptr ) != x );
}

// ---- B. parameter trees
static std::map<std::string,T> genTree( pbt::Ctx& c, int depth ) { std::map<std::string,T> r; int n = c.range( depth == 3 ? 1 : 0, 3 ); for( int i = 0; i < n; ++i ) { T t; t.v = std::to_string( c.range( 0, 99 ) ); if( depth > 0 && c.chance( 2, 3 ) ) { t.nested = true; t.k = genTree( c, depth-1 ); } r[c.pick( std::vector<std::string>{ "a", "b", "c", "solver", "x0" } )] = t; } return r; }
static std::string join( const OP::Path& p ) { std::string s; for( auto& i : p ) s += ( s.empty() ? "" : "." ) + i; return s; }
PBT( trees, 8000, 150000, "random parameter trees; values and sub-trees looked up, assigned and copied by random paths (existing, missing, through leaves, with empty items), given as text or as list; copies are modified independently; oracle: a tree of plain maps; non-trivial: a path of at least two items that exists" )
{
    auto m = genTree( c, 3 ); Params p = toParams( m ); c.log << show( m ) << "\n"; int good = 0; std::vector<std::pair<Params,std::map<std::string,T>>> copies; int n = c.range( 1, 6 );
    for( int k = 0; k < n; ++k ) {
        OP::Path path; auto *at = &m; T *last = nullptr; auto *parent = &m; bool found = true; int len = c.range( 0, 4 );
        for( int i = 0; i < len; ++i ) { std::string s; if( at && !at->empty() && c.chance( 5, 6 ) ) { auto it = at->begin(); std::advance( it, c.range( 0, (int)at->size()-1 ) ); s = it->first; } else s = c.pick( std::vector<std::string>{ "a", "b", "zz", "x0" } ); path.push_back( s ); parent = at; last = nullptr; if( at ) { auto it = at->find( s ); if( it == at->end() ) { at = nullptr; found = false; } else { last = &it->second; at = last->nested ? &last->k : nullptr; } } else found = false; }
        std::string text = join( path ); if( !path.empty() && c.chance( 1, 8 ) ) text += "."; bool byText = c.flip(); c.log << text << "\n"; bool bad = false; if( !path.empty() && c.chance( 1, 10 ) ) { byText = true; bad = true; text = c.pick( std::vector<std::string>{ "." + text, path.size() > 1 ? path[0] + "." + text.substr( path[0].size() ) : "." + text, "..", text + ".." } ); }
        // parameters
        bool isTree = found && ( path.empty() || ( last && last->nested ) ) && !bad; Params *got = nullptr; try { got = byText ? &OP::parameters( p, text ) : &OP::parameters( p, path ); } catch( const cxx::exception& ) {} EXPECT( (bool)got == isTree, "parameters", "'" << text << "' in " << show( tree( p ) ) << ( got ? ": parameters found" : ": no parameters found" ) ); if( got ) EXPECT( equal( tree( *got ), path.empty() ? m : last->k ), "parameters", "'" << text << "' gives " << show( tree( *got ) ) );
        bool isVal = found && !path.empty() && !bad; PV *v = nullptr; try { v = byText ? &OP::value( p, text ) : &OP::value( p, path ); } catch( const cxx::exception& ) {} EXPECT( (bool)v == isVal, "value", "'" << text << "' in " << show( tree( p ) ) << ( v ? ": value found" : ": no value found" ) );
        if( v ) { if( path.size() > 1 ) ++good; EXPECT( v->value<std::string>() == last->v && (bool)v->nestedParameters() == last->nested && equal( tree( v->safeNestedParameters() ), last->k ), "value", "'" << text << "' gives " << *v );
            if( c.flip() ) copies.push_back( { p, m } ); if( c.flip() ) { T t; t.v = "new"; if( c.flip() ) { t.nested = true; t.k = genTree( c, 1 ); } PV nv = t.nested ? PV( t.v, toParams( t.k ) ) : PV( t.v ); if( c.flip() && last->nested ) { ( *v->nestedParameters() )["added"] = 1; T a; a.v = "1"; last->k["added"] = a; } else { *v = nv; *last = t; if( t.nested ) { ( *nv.nestedParameters() )["later"] = 2; } } } }
        EXPECT( equal( tree( p ), m ), "tree", "tree is " << show( tree( p ) ) << ", expected " << show( m ) ); for( auto& q : copies ) EXPECT( equal( tree( q.first ), q.second ), "copy", "a copy made before has changed to " << show( tree( q.first ) ) << ", expected " << show( q.second ) );
    }
    c.nontrivial( good > 0 ); c.label( "copies", !copies.empty() );
}

// ---- configurations of any provider
class Provider : public OP
{
public:
    Params p; int sets = 0; std::string help;
    Params parameters() const override { return p; }
    void setParameters( const Params& q ) override { ++sets; for( auto& e : q ) if( e.second.value<std::string>() == "refused" ) throw cxx::exception( "refused" ); for( auto& e : p ) { auto it = q.find( e.first ); if( it != q.end() ) e.second = it->second; } }
    Params helpOnParameters() const override { Params h; for( auto& e : p ) h[e.first] = PV( help + e.first ); return h; }
};
PBT( providers, 8000, 150000, "configurations with and without a supplier of their provider; sequences of up to 20 changes of the provider, lookups of values, sub-trees and help, settings of existing, missing and refused values in any order; oracle: one tree of plain maps per provider - what is read and set is that of the current provider, and no other changes; non-trivial: two providers with settings" )
{
    struct One { std::shared_ptr<Provider> o; std::map<std::string,T> m; int sets = 0; }; std::vector<One> v; int n = c.range( 1, 3 ); for( int i = 0; i < n; ++i ) { One q; q.m = genTree( c, c.chance( 1, 6 ) ? 2 : 3 ); q.o = std::make_shared<Provider>(); q.o->p = toParams( q.m ); q.o->help = "help " + std::to_string( i ) + " on "; v.push_back( q ); c.log << i << ": " << show( q.m ) << "\n"; }
    bool sup = c.flip(); int supplied = 0, cur = sup ? 0 : -1; ComponentConfiguration cc = sup ? ComponentConfiguration( [&]() -> std::shared_ptr<OptionalParameters> { ++supplied; return v[0].o; } ) : ComponentConfiguration(); int ops = c.range( 1, 20 ), used = 0, last = -1;
    if( !sup ) { if( c.flip() ) EXPECT( cc.parameters().empty(), "empty", "a configuration without provider has parameters" ); cur = c.range( 0, n-1 ); cc.setParameterProvider( v[cur].o ); c.log << "provider " << cur << "\n"; }
    for( int k = 0; k < ops; ++k ) {
        auto& q = v[cur]; switch( c.pickw( { 2, 2, 1, 4 } ) ) {
        case 0: cur = c.range( 0, n-1 ); cc.setParameterProvider( v[cur].o ); c.log << "provider " << cur << "\n"; EXPECT( cc.parameterProvider() == v[cur].o, "provider", "another provider is reported" ); break;
        case 1: EXPECT( equal( tree( cc.parameters() ), q.m ), "parameters", "parameters are " << show( tree( cc.parameters() ) ) << ", expected " << show( q.m ) ); EXPECT( cc.parameterProvider() == q.o, "provider", "another provider is reported" ); break;
        case 2: { std::string s = q.m.empty() || c.chance( 1, 4 ) ? "zz9" : std::next( q.m.begin(), c.range( 0, (int)q.m.size()-1 ) )->first; std::string h = c.flip() ? cc.helpOnValue( s ) : cc.helpOnValue( OP::Path{ s } ), w = q.m.count( s ) ? q.o->help + s : "No help is available"; EXPECT( h == w, "help", "help on '" << s << "' is '" << h << "', expected '" << w << "'" ); break; }
        default: { OP::Path path; auto *at = &q.m; T *t = nullptr; int len = c.range( 1, 3 ); bool found = true; for( int i = 0; i < len && found; ++i ) { if( at->empty() || c.chance( 1, 8 ) ) { path.push_back( "zz9" ); found = false; t = nullptr; break; } auto it = std::next( at->begin(), c.range( 0, (int)at->size()-1 ) ); path.push_back( it->first ); t = &it->second; if( !t->nested ) break; at = &t->k; } std::string text = join( path ), nv = c.chance( 1, 6 ) ? "refused" : "v" + std::to_string( k ); T w; w.v = nv; if( c.chance( 1, 3 ) ) { w.nested = true; w.k = genTree( c, 1 ); } PV val = w.nested ? PV( nv, toParams( w.k ) ) : PV( nv ); bool refused = nv == "refused" && path.size() == 1; c.log << "set " << text << " to " << nv << "\n"; bool ok = true; try { if( c.flip() ) cc.setValue( text, val ); else cc.setValue( path, val ); } catch( const cxx::exception& ) { ok = false; } EXPECT( ok == ( found && !refused ), "set", "setting of '" << text << "'" << ( ok ? " succeeded" : " failed" ) ); if( found ) ++q.sets; if( ok ) { *t = w; if( last != cur ) ++used; last = cur; EXPECT( cc.value( text ).value<std::string>() == nv, "value", "'" << text << "' is " << cc.value( text ).value<std::string>() ); } EXPECT_THROW( cc.value( "zz9" ), "missing", "value of a missing path" ); } }
        for( auto& e : v ) { EXPECT( equal( tree( e.o->p ), e.m ), "tree", "a provider has " << show( tree( e.o->p ) ) << ", expected " << show( e.m ) ); EXPECT( e.o->sets == e.sets, "sets", "a provider was set " << e.o->sets << " times, expected " << e.sets ); }
    }
    EXPECT( supplied <= 1, "supplier", "the provider was supplied " << supplied << " times" ); c.nontrivial( used > 1 );
}

// ---- C. every registered type
PBT( types, 5000, 60000, "every registered type of every interface; a random subset of its parameters, components with nested parameters included, is set at once or one after another; afterwards these are reported as set, all others as before, setting what is reported changes nothing, and an object of the same type given the reported parameters reports the same; "
     "a value of a wrong kind is refused by an exception; non-trivial: at least two parameters set" )
{
    std::vector<std::pair<std::string,std::string>> all; for( auto& i : itfs() ) if( i.first != "reference_solver" && i.first != "predictor" && i.first != "output_con" && i.first != "output_file" ) for( auto& t : i.second.types() ) all.push_back( { i.first, t } );
    auto w = c.pick( all ); OP *op = nullptr; auto o = itfs().at( w.first ).make( w.second, op ); c.log << w.first << " " << w.second << "\n"; c.label( w.first ); if( !op ) { c.nontrivial( false ); return; }
    auto m = tree( op->parameters() ); int rounds = c.range( 1, 2 ), set = 0;
    for( int k = 0; k < rounds; ++k ) {
        auto s = genSettings( c, m, 2, false ); c.log << "set " << show( s ) << "\n"; bool one = c.flip() && !s.count( "size" ); set += s.size();
        if( one ) { std::vector<std::string> names; for( auto& e : s ) names.push_back( e.first ); auto q = c.perm( names.size() ); for( auto i : q ) { std::map<std::string,T> a; a[names[i]] = s[names[i]]; op->setParameters( toParams( a ) ); m = applied( m, a ); } } else { op->setParameters( toParams( s ) ); m = applied( m, s ); }
        std::string d = differ( m, tree( op->parameters() ) ); EXPECT( d.empty(), "set", w.first << " " << w.second << " after " << show( s ) << ": " << d ); m = tree( op->parameters() );
        op->setParameters( op->parameters() ); d = differ( m, tree( op->parameters() ) ); EXPECT( d.empty(), "again", w.first << " " << w.second << ": setting the reported parameters: " << d );
        OP *op2 = nullptr; auto o2 = itfs().at( w.first ).make( w.second, op2 ); op2->setParameters( op->parameters() ); d = differ( m, tree( op2->parameters() ) ); EXPECT( d.empty(), "clone", w.first << " " << w.second << ": another object with the same parameters: " << d );
    }
    if( !m.empty() && c.flip() ) { auto it = m.begin(); std::advance( it, c.range( 0, (int)m.size()-1 ) ); T t; if( badValue( c, it->first, it->second, t ) && !( it->second.comp && itfs().at( it->first ).types().empty() && t.v.empty() ) ) { std::map<std::string,T> a; a[it->first] = t; bool thrown = false; try { op->setParameters( toParams( a ) ); } catch( const std::exception& ) { thrown = true; } EXPECT( thrown, "invalid", w.first << " " << w.second << " accepts '" << t.v << "' for " << it->first ); std::string d = differ( m, tree( op->parameters() ) ); EXPECT( d.empty(), "invalid", "after the refused value '" << t.v << "': " << d ); } }
    c.nontrivial( set > 1 );
}

// ---- D. configuration
static void paths( const std::map<std::string,T>& t, const std::string& p, std::vector<std::string>& r ) { for( auto& e : t ) { r.push_back( p + e.first ); paths( e.second.k, p + e.first + ".", r ); } }
static T* at( std::map<std::string,T>& m, const std::string& path ) { size_t d = path.find( '.' ); auto it = m.find( path.substr( 0, d ) ); if( it == m.end() ) return nullptr; return d == std::string::npos ? &it->second : at( it->second.k, path.substr( d+1 ) ); }
PBT( configuration, 2000, 20000, "sequences of up to 10 settings of an ODE solver configuration by path: existing and missing paths, components with and without nested parameters, valid and invalid values, before and after each other; oracle: exactly the addressed value changes, a component starts with its defaults overridden by what is given, "
     "an invalid path or value is refused by an exception and changes nothing, later settings included; non-trivial: at least one nested value set" )
{
    Cfg cfg; auto m = tree( cfg.parameters() ); int n = c.range( 1, 10 ), nested = 0, refused = 0; c.log << show( m ) << "\n";
    for( int k = 0; k < n; ++k ) {
        std::vector<std::string> ps; paths( m, "", ps ); std::string p = c.pick( ps ); T *t = at( m, p ); std::string name = p.substr( p.rfind( '.' ) == std::string::npos ? 0 : p.rfind( '.' ) + 1 ); OP::Path list; { std::string s = p; for( ;; ) { auto d = s.find( '.' ); list.push_back( s.substr( 0, d ) ); if( d == std::string::npos ) break; s = s.substr( d+1 ); } }
        bool bad = c.chance( 1, 4 ); T v; std::string path = p; auto before = m;
        if( bad ) { if( c.flip() || !badValue( c, name, *t, v ) ) { path = c.pick( std::vector<std::string>{ p + ".nothing", "nothing", p + "x", "", "nothing." + p, "." + p } ); v.v = "1"; if( at( m, path ) ) continue; } if( v.v.empty() && t->comp ) continue; }
        else { v = genValue( c, name, *t, 2, false ); if( v.v.empty() && t->comp && !optionalNames.count( name ) ) continue; }
        c.log << "set " << path << " = " << v.v << ( v.nested ? show( v.k ) : "" ) << "\n"; PV pv = v.nested ? PV( v.v, toParams( v.k ) ) : PV( v.v ); bool thrown = false; try { if( !bad && c.flip() ) cfg.setValue( list, pv ); else cfg.setValue( path, pv ); } catch( const std::exception& ) { thrown = true; }
        EXPECT( thrown == bad, bad ? "invalid" : "refused", "setting '" << path << "' to '" << v.v << "' " << ( thrown ? "was refused" : "was not refused" ) ); refused += bad;
        if( !bad ) { setNode( name, *t, v ); if( name == "size" ) { auto d = p.rfind( '.' ); resizeState( at( m, p.substr( 0, d ) )->k ); } if( p != name ) ++nested; }
        auto now = tree( cfg.parameters() ); std::string d = differ( m, now ); EXPECT( d.empty(), bad ? "changed" : "set", "after " << ( bad ? "the refused " : "" ) << "setting of '" << path << "' to '" << v.v << "': " << d ); m = now;
        { const auto& q = cfg.parameterProvider()->parameters(); std::string e = differ( m, tree( q ) ); EXPECT( e.empty(), "provider", e ); }
        std::string lp = c.pick( ps ); if( T *l = at( m, lp ) ) { EXPECT( cfg.value( lp ).value<std::string>() == l->v, "value", "value( '" << lp << "' ) is '" << cfg.value( lp ) << "'" ); EXPECT( !cfg.helpOnValue( lp ).empty(), "help", lp ); if( l->nested ) { std::string e = differ( l->k, tree( cfg.parameters( lp ) ) ); EXPECT( e.empty(), "parameters", lp << ": " << e ); } }
    }
    c.nontrivial( nested > 0 ); c.label( "refused settings", refused > 0 );
}

