"""C27: type traits, type transformations, type lists and list macros.

Generates C++ types (built by qualifiers, pointers, references, arrays, functions, members, over arithmetic types and
generated classes, unions, enumerations and hierarchies), pairs of types, lists of types and macro uses; compiles
programs that compare what the library says about each with what the standard library says (or with what a model in
Python expects); shrinks a disagreement to a smallest type. A replay file is a program of one item.
A program that does not compile, although the same uses of the standard library do, is a disagreement too.
"""
import os, random, subprocess, sys, time, json, glob, re, shutil
from concurrent.futures import ThreadPoolExecutor

PRE = r'''
#include <ustl/ustl.h>
#include <ustl/traits.h>
#include <type_traits>
#include <utility>
#include <stdio.h>
#include <string.h>
static unsigned long g_cmp, g_bad; static const char* g_item = "";
static void say (const char* what, const char* t, long got, long want) { ++g_bad; printf ("F\t%s\t%s<%s>\tis %ld, should be %ld\n", g_item, what, t, got, want); }
static void sayt (const char* what, const char* t) { ++g_bad; printf ("F\t%s\t%s<%s>\tis another type\n", g_item, what, t); }
static void says (const char* what, const char* got, const char* want) { ++g_bad; printf ("F\t%s\t%s\tis \"%s\", should be \"%s\"\n", g_item, what, got, want); }
#ifdef STDONLY
#define V(tr,n,...) do { if (long(std::tr<__VA_ARGS__>::value) == 12345) ++g_cmp; } while (0)
#define TY(tr,n,...) do { (void) sizeof (std::is_same<typename std::tr<__VA_ARGS__>::type,int>); } while (0)
#define EQ(what,n,a,b) do { } while (0)
#define SAME(what,n,a,...) do { } while (0)
#else
#define V(tr,n,...) do { ++g_cmp; if (long(ustl::tr<__VA_ARGS__>::value) != long(std::tr<__VA_ARGS__>::value)) say (#tr, n, long(ustl::tr<__VA_ARGS__>::value), long(std::tr<__VA_ARGS__>::value)); } while (0)
#define TY(tr,n,...) do { ++g_cmp; if (!std::is_same<typename ustl::tr<__VA_ARGS__>::type, typename std::tr<__VA_ARGS__>::type>::value) sayt (#tr, n); if (!std::is_same<ustl::tr##_t<__VA_ARGS__>, typename std::tr<__VA_ARGS__>::type>::value) sayt (#tr "_t", n); } while (0)
#define EQ(what,n,a,b) do { ++g_cmp; if (long(a) != long(b)) say (what, n, long(a), long(b)); } while (0)
#define SAME(what,n,a,...) do { ++g_cmp; if (!std::is_same<a,__VA_ARGS__>::value) sayt (what, n); } while (0)
#endif
template <typename T> using C = const T; template <typename T> using Vo = volatile T; template <typename T> using P = T*;
template <typename T> using L = T&; template <typename T> using R = T&&; template <typename T, int N> using A = T[N];
template <typename T> using U = T[]; template <typename T, typename K> using M = T K::*;
struct Pod { int a; char b; };

template <typename T> void Categories (const char* n)
{
    V(is_void,n,T); V(is_integral,n,T); V(is_floating_point,n,T); V(is_pointer,n,T); V(is_member_pointer,n,T);
    V(is_member_function_pointer,n,T); V(is_member_object_pointer,n,T); V(is_array,n,T); V(is_lvalue_reference,n,T);
    V(is_rvalue_reference,n,T); V(is_reference,n,T); V(is_union,n,T); V(is_class,n,T); V(is_enum,n,T); V(is_function,n,T);
    V(is_object,n,T); V(is_arithmetic,n,T); V(is_fundamental,n,T); V(is_scalar,n,T); V(is_compound,n,T); V(is_const,n,T); V(is_volatile,n,T);
}
template <typename T> void Sign (const char* n) { V(is_signed,n,T); V(is_unsigned,n,T); }
template <typename T> void Shape (const char* n) { V(rank,n,T); V(extent,n,T); V(extent,n,T,1); V(extent,n,T,2); V(extent,n,T,3); V(extent,n,T,4); V(extent,n,T,7); }
template <typename T> void Modify (const char* n)
{
    TY(remove_const,n,T); TY(remove_volatile,n,T); TY(remove_cv,n,T); TY(add_const,n,T); TY(add_volatile,n,T); TY(add_cv,n,T);
    TY(remove_reference,n,T); TY(remove_pointer,n,T); TY(remove_extent,n,T); TY(remove_all_extents,n,T);
    TY(add_lvalue_reference,n,T); TY(add_rvalue_reference,n,T); TY(add_pointer,n,T); TY(decay,n,T);
}
#ifdef STDONLY
#define SAMEFN(w,n,a,b)
#else
#define SAMEFN(w,n,a,b) do { ++g_cmp; if (!std::is_same<a,b>::value) sayt (w, n); } while (0)
#endif
#define CM ,
template <typename T> void Values (const char* n)
{
    SAMEFN("declval",n,decltype(ustl::declval<T>()),decltype(std::declval<T>()));
    SAMEFN("move",n,decltype(ustl::move(std::declval<T>())),decltype(std::move(std::declval<T>())));
    SAMEFN("move of lvalue",n,decltype(ustl::move(std::declval<T&>())),decltype(std::move(std::declval<T&>())));
    SAMEFN("forward",n,decltype(ustl::forward<T>(std::declval<T&>())),decltype(std::forward<T>(std::declval<T&>())));
    SAMEFN("as_const",n,decltype(ustl::as_const(std::declval<T&>())),const std::remove_reference_t<T>&);
}
template <typename T> void Properties (const char* n)
{
    V(is_empty,n,T); V(is_abstract,n,T); V(is_literal_type,n,T); V(is_polymorphic,n,T); V(is_standard_layout,n,T); V(is_pod,n,T);
    V(is_trivial,n,T); V(has_virtual_destructor,n,T); V(is_trivially_copyable,n,T);
#if __cplusplus >= 201402L
    V(is_final,n,T);
#endif
#ifndef STDONLY
    EQ("has_trivial_copy",n,ustl::has_trivial_copy<T>::value,__is_pod(T)||__has_trivial_copy(T));
    EQ("has_trivial_assign",n,ustl::has_trivial_assign<T>::value,__is_pod(T)||__has_trivial_assign(T));
    EQ("has_trivial_constructor",n,ustl::has_trivial_constructor<T>::value,__is_pod(T)||__has_trivial_constructor(T));
    EQ("has_trivial_destructor",n,ustl::has_trivial_destructor<T>::value,__is_pod(T)||__has_trivial_destructor(T));
    EQ("has_trivial_copy_constructor",n,ustl::has_trivial_copy_constructor<T>::value,__has_trivial_copy(T));
    EQ("has_trivial_copy_assign",n,ustl::has_trivial_copy_assign<T>::value,__has_trivial_assign(T));
    EQ("has_nothrow_assign",n,ustl::has_nothrow_assign<T>::value,__has_nothrow_assign(T));
    EQ("has_nothrow_copy",n,ustl::has_nothrow_copy<T>::value,__has_nothrow_copy(T));
    EQ("has_nothrow_constructor",n,ustl::has_nothrow_constructor<T>::value,__has_nothrow_constructor(T));
#endif
}
template <typename T> void Building (const char* n)
{
    if (!std::is_array<T>::value || std::is_nothrow_destructible<T>::value) {	// (the compiler itself forgets the destructor of array elements)
	V(is_default_constructible,n,T); V(is_nothrow_default_constructible,n,T);
#ifndef STDONLY
	EQ("is_constructible",n,ustl::is_constructible<T>::value,std::is_constructible<T>::value);
	EQ("is_nothrow_constructible",n,ustl::is_nothrow_constructible<T>::value,std::is_nothrow_constructible<T>::value);
#endif
    }
    V(is_copy_constructible,n,T); V(is_move_constructible,n,T);
    V(is_copy_assignable,n,T); V(is_move_assignable,n,T); V(is_trivially_default_constructible,n,T); V(is_trivially_copy_constructible,n,T);
    V(is_trivially_move_constructible,n,T); V(is_trivially_copy_assignable,n,T); V(is_trivially_move_assignable,n,T);
    V(is_destructible,n,T); V(is_nothrow_destructible,n,T); V(is_trivially_destructible,n,T);
}
template <typename T> void Align (const char* n) { V(alignment_of,n,T); }
template <typename T, typename K> void Relation (const char* n)
{
    V(is_same,n,T,K); V(is_convertible,n,T,K); V(is_assignable,n,T,K); V(is_trivially_assignable,n,T,K); V(is_trivially_constructible,n,T,K);
    typedef std::remove_cv_t<T> T1; typedef std::remove_cv_t<K> K1;
    if (!std::is_same<T1,K1>::value) V(is_base_of,n,T,K);
}
template <typename T, typename K> void Convert (const char* n) { V(is_convertible,n,T,K); V(is_same,n,T,K); }
template <typename Q, typename S, typename = void> struct HasCommon { static void run (const char*) {} };
template <typename T, typename K, typename... W> struct Pack;
template <typename... W> struct CommonOf {
    template <typename Q, typename = typename Q::type> static std::true_type has (int); template <typename Q> static std::false_type has (...);
    template <typename Q> static void go (const char* n, std::true_type) { 
#ifndef STDONLY
	++g_cmp; if (!std::is_same<typename Q::type, typename ustl::common_type<W...>::type>::value) sayt ("common_type", n); if (!std::is_same<typename Q::type, ustl::common_type_t<W...>>::value) sayt ("common_type_t", n);
#endif
    }
    template <typename Q> static void go (const char*, std::false_type) {}
    static void run (const char* n) { typedef std::common_type<W...> Q; go<Q> (n, decltype(has<Q>(0))()); }
};
#ifndef STDONLY
namespace ltm = ustl::tm; namespace ltl = ustl::tm::tl;
template <typename T> struct KeepRef { typedef T type; };
template <typename T, typename D> using RefLike = std::conditional_t<std::is_lvalue_reference<T>::value, std::add_lvalue_reference_t<D>, std::conditional_t<std::is_rvalue_reference<T>::value, std::add_rvalue_reference_t<D>, D>>;
template <typename D> struct Is1 { typedef std::remove_cv_t<D> Q; 
    static const bool uint = std::is_same<Q,unsigned char>::value || std::is_same<Q,unsigned short>::value || std::is_same<Q,unsigned>::value || std::is_same<Q,unsigned long>::value || std::is_same<Q,unsigned long long>::value;
    static const bool sint = std::is_same<Q,signed char>::value || std::is_same<Q,short>::value || std::is_same<Q,int>::value || std::is_same<Q,long>::value || std::is_same<Q,long long>::value;
    static const bool oint = std::is_same<Q,char>::value || std::is_same<Q,bool>::value || std::is_same<Q,wchar_t>::value;
    static const bool flt = std::is_same<Q,float>::value || std::is_same<Q,double>::value || std::is_same<Q,long double>::value; };
template <typename T> void Loki (const char* n)
{
    typedef ltm::TypeTraits<T> tt; typedef std::remove_reference_t<T> D; typedef Is1<D> q;
    EQ("TypeTraits::isConst",n,tt::isConst,std::is_const<D>::value); EQ("TypeTraits::isVolatile",n,tt::isVolatile,std::is_volatile<D>::value);
    EQ("TypeTraits::isReference",n,tt::isReference,std::is_reference<T>::value); EQ("TypeTraits::isLValue",n,tt::isLValue,!std::is_rvalue_reference<T>::value);
    EQ("TypeTraits::isRValue",n,tt::isRValue,std::is_rvalue_reference<T>::value);
    EQ("TypeTraits::isFunction",n,tt::isFunction,std::is_function<D>::value);
    EQ("TypeTraits::isPointer",n,tt::isPointer,std::is_pointer<D>::value);
    EQ("TypeTraits::isFunctionPointer",n,tt::isFunctionPointer,std::is_pointer<D>::value && std::is_function<std::remove_pointer_t<D>>::value);
    EQ("TypeTraits::isMemberFunctionPointer",n,tt::isMemberFunctionPointer,std::is_member_function_pointer<D>::value);
    EQ("TypeTraits::isMemberPointer",n,tt::isMemberPointer,std::is_member_pointer<D>::value);
    EQ("TypeTraits::isStdUnsignedInt",n,tt::isStdUnsignedInt,q::uint); EQ("TypeTraits::isStdSignedInt",n,tt::isStdSignedInt,q::sint);
    EQ("TypeTraits::isStdIntegral",n,tt::isStdIntegral,q::uint||q::sint||q::oint); EQ("TypeTraits::isStdFloat",n,tt::isStdFloat,q::flt);
    EQ("TypeTraits::isStdArith",n,tt::isStdArith,q::uint||q::sint||q::oint||q::flt);
    EQ("TypeTraits::isStdFundamental",n,tt::isStdFundamental,q::uint||q::sint||q::oint||q::flt||(std::is_same<T,void>::value));
    EQ("TypeTraits::isUnsignedInt",n,tt::isUnsignedInt,q::uint); EQ("TypeTraits::isSignedInt",n,tt::isSignedInt,q::sint);
    EQ("TypeTraits::isUnsigned",n,tt::isUnsigned,q::uint||std::is_pointer<D>::value); EQ("TypeTraits::isSigned",n,tt::isSigned,q::sint||q::flt);
    EQ("TypeTraits::isIntegral",n,tt::isIntegral,q::uint||q::sint||q::oint); EQ("TypeTraits::isFloat",n,tt::isFloat,q::flt);
    EQ("TypeTraits::isArith",n,tt::isArith,q::uint||q::sint||q::oint||q::flt); EQ("TypeTraits::isFundamental",n,tt::isFundamental,q::uint||q::sint||q::oint||q::flt||(std::is_same<T,void>::value));
    SAME("TypeTraits::NonConstType",n,typename tt::NonConstType,RefLike<T,std::remove_const_t<D>>);
    SAME("TypeTraits::NonVolatileType",n,typename tt::NonVolatileType,RefLike<T,std::remove_volatile_t<D>>);
    SAME("TypeTraits::UnqualifiedType",n,typename tt::UnqualifiedType,RefLike<T,std::remove_cv_t<D>>);
    SAME("TypeTraits::PointeeType",n,typename tt::PointeeType,std::conditional_t<std::is_pointer<D>::value,std::remove_pointer_t<D>,ltm::NullType>);
    SAME("TypeTraits::ReferredType",n,typename tt::ReferredType,D);
    if (!std::is_rvalue_reference<T>::value)
	SAME("TypeTraits::ParameterType",n,typename tt::ParameterType,std::conditional_t<q::uint||q::sint||q::oint||q::flt||std::is_pointer<D>::value||std::is_member_pointer<D>::value||std::is_lvalue_reference<T>::value,T,std::conditional_t<std::is_same<T,void>::value,ltm::NullType,std::add_lvalue_reference_t<const T>>>);
    SAME("ltm::RemoveReference",n,typename ltm::RemoveReference<T>::Result,D);
    SAME("ltm::Identity",n,typename ltm::Identity<T>::Result,T);
}
#endif
template <typename T, typename K> void Pick (const char* n)
{
    TY(conditional,n,true,T,K); TY(conditional,n,false,T,K); TY(enable_if,n,true,T);
#ifndef STDONLY
    SAME("ltm::Select",n,typename ltm::Select<true CM T CM K>::Result,T); SAME("ltm::Select",n,typename ltm::Select<false CM T CM K>::Result,K);
    EQ("ltm::IsSameType",n,ltm::IsSameType<T CM K>::value,std::is_same<T CM K>::value);
    SAME("ltm::EnableIf",n,typename ltm::EnableIf<true CM T>::Result,T); SAME("ltm::EnableIf",n,typename ltm::EnableIf<false CM T>::Result,void);
#endif
}
template <bool, typename T> struct Storage_ { static void run (const char* n) {} };
static bool same_text (const char* a, const char* b)
{
    for (;;) { while (*a == ' ') ++a; while (*b == ' ') ++b; if (*a != *b) return false; if (!*a) return true; ++a; ++b; }
}
#define STR_(...) #__VA_ARGS__
#define STR(...) STR_(__VA_ARGS__)
#define TEXT(what,got,want) do { ++g_cmp; if (!same_text (got, want)) says (what, got, want); } while (0)
'''

ARITH = ['char','signed char','unsigned char','short','unsigned short','int','unsigned','long','unsigned long','long long','unsigned long long','float','double','long double','bool','wchar_t','char16_t','char32_t']
INTS = ARITH[:11] + ARITH[14:]
PLAININT = ARITH[:11]
FQ = ['','const','volatile','const volatile','&','const &','volatile &','const volatile &','&&','const &&','volatile &&','const volatile &&']
FARGS = ['int','char*','double','Pod','const Pod&','int&&','void*','long']

# Types are tuples: ('n',text,kind) ('k',class index) ('fn',ret,args,ellipsis,qual) or (constructor, type[, extra]).
# kinds: obj (complete object), abs, void, ref, fn, fnq (qualified function), uarr
class Ty:
    pass

def kind(t, cl):
    c = t[0]
    if c == 'n': return t[2]
    if c == 'k': return 'abs' if t[1] < len(cl) and is_abs(cl, t[1]) else 'obj'
    if c == 'fn': return 'fnq' if t[4] else 'fn'
    k = kind(t[1], cl)
    if k is None: return None
    if c in 'CV':
        return k
    if c == 'P': return None if k in ('ref','fnq') else 'obj'
    if c in 'LR': return None if k in ('void','fnq') else 'ref'
    if c == 'A': return None if k != 'obj' else 'obj'
    if c == 'U': return None if k != 'obj' else 'uarr'
    if c == 'M':
        if k in ('void','ref'): return None
        return 'obj'

def text(t, ns=''):
    c = t[0]
    if c == 'n': return t[1]
    if c == 'k': return ns + 'K%d' % t[1]
    if c == 'fn': return '%s(%s%s)%s' % (t[1], ','.join(t[2]), (',...' if t[2] else '...') if t[3] else '', (' ' + t[4]) if t[4] else '')
    if c == 'A': return 'A<%s,%d>' % (text(t[1], ns), t[2])
    if c == 'M': return 'M<%s,Pod>' % text(t[1], ns)
    return '%s<%s>' % ({'V':'Vo'}.get(c, c), text(t[1], ns))

def depth(t): return 1 + depth(t[1]) if t[0] in 'CVPLRAUM' and t[0] != 'fn' else 0
def leaf(t):
    while t[0] in ('C','V','P','L','R','A','U','M'): t = t[1]
    return t

# Classes: dict with key, bases [(access,virtual,index)], members [text or index], default/copy/move/cassign/massign/dtor, virt, pure, final, conv, ctor
def anyof(cl, i, f):
    k = cl[i]
    return f(k) or any(anyof(cl, b[2], f) for b in k['bases']) or any(anyof(cl, m, f) for m in k['members'] if isinstance(m, int))
def is_abs(cl, i):
    k = cl[i]
    return bool(k['pure']) or any(is_abs(cl, b[2]) for b in k['bases'])
def hasvd(cl, i): return cl[i]['dtor'] == 'virtual' or any(hasvd(cl, b[2]) for b in cl[i]['bases'])
def baddtor(k): return k['dtor'] in ('delete','private','throw')
def gen_class(rnd, cl, plain=False):
    n = len(cl)
    k = dict(key=rnd.choice(['struct','struct','class','union']), bases=[], members=[], default='', copy='', move='', cassign='', massign='', dtor='', virt=False, pure=False, final=False, conv=[], ctor=[])
    if plain: k['key'] = 'struct'
    un = k['key'] == 'union'
    ok = [i for i in range(n) if cl[i]['key'] != 'union' and not cl[i]['final']]
    if ok and not un and rnd.random() < .6:
        for b in rnd.sample(ok, min(len(ok), rnd.choice([1,1,2,3]))):
            k['bases'].append(('public' if plain else rnd.choice(['public','public','public','private','protected']), rnd.random() < .25, b))
    for _ in range(rnd.choice([0,0,1,1,2,3])):
        c = rnd.randrange(9)
        okm = [i for i in range(n) if not is_abs(cl, i)]
        if c < 3: k['members'].append(rnd.choice(['int %s','char %s','double %s','long %s[3]','void* %s','long double %s','short %s']))
        elif c == 3 and not un: k['members'].append(rnd.choice(['int& %s','const int %s','int&& %s','volatile int %s']))
        elif c == 4: k['members'].append('int %s : 3')
        elif c >= 5 and okm: k['members'].append(rnd.choice(okm))
    if plain: return k
    hascl = any(isinstance(m, int) for m in k['members']) or k['bases']
    nocv = lambda c: c not in ('copyN','cassignN')
    def some(p, *o): return rnd.choice(o) if rnd.random() < p else ''
    k['default'] = some(.5, 'user','user','noexcept','delete','private','default','explicit')
    k['copy'] = some(.4, 'user','noexcept','N','delete','private') if hascl else some(.4, 'user','noexcept','N','delete','private','default')
    k['move'] = some(.3, 'user','noexcept','delete','private')
    k['cassign'] = some(.4, 'user','void','N','delete','private','value')
    k['massign'] = some(.3, 'user','delete','private','noexcept') if k['cassign'] != 'value' else ''
    k['dtor'] = some(.5, 'user','virtual','delete','private','throw','default')
    if un and k['dtor'] == 'virtual': k['dtor'] = 'user'
    if not un and rnd.random() < .2: k['virt'] = True
    if not un and rnd.random() < .12: k['virt'] = k['pure'] = True
    if not un and rnd.random() < .15: k['final'] = True
    if rnd.random() < .3: k['conv'] = rnd.sample(['operator int() const','explicit operator bool() const','operator const char*()','operator double() volatile','operator Pod() const','operator int&()'], rnd.choice([1,1,2]))
    if rnd.random() < .3: k['ctor'] = rnd.sample(['(int)','explicit (const char*)','(double)','explicit (long)','(const Pod&)','(void*)'], rnd.choice([1,1,2]))
    cl.append(k)
    if hasvd(cl, n) and anyof(cl, n, baddtor):
        if k['dtor'] in ('delete','private','throw') or anyof(cl, n, baddtor):
            cl.pop(); return gen_class(rnd, cl)
    cl.pop()
    return k

def class_text(k, i):
    N = 'K%d' % i
    o = ['%s %s%s' % (k['key'], N, ' final' if k['final'] else '')]
    if k['bases']: o.append(' : ' + ', '.join('%s %sK%d' % (a, 'virtual ' if v else '', b) for a, v, b in k['bases']))
    pub, pri = [], []
    def put(how, decl, tail={}):
        if not how: return
        d = decl + {'noexcept':' noexcept','delete':' = delete','default':' = default','throw':' noexcept(false)'}.get(how, '')
        (pri if how == 'private' else pub).append(d + ';')
    put(k['default'], ('explicit ' if k['default'] == 'explicit' else '') + N + '()')
    put(k['copy'], '%s(%s%s&)' % (N, '' if k['copy'] == 'N' else 'const ', N))
    put(k['move'], '%s(%s&&)' % (N, N))
    put(k['cassign'], ('%s operator=(%s)' % ('void' if k['cassign'] == 'void' else N + '&', N if k['cassign'] == 'value' else ('' if k['cassign'] == 'N' else 'const ') + N + '&')))
    put(k['massign'], '%s& operator=(%s&&)' % (N, N))
    put(k['dtor'], ('virtual ' if k['dtor'] == 'virtual' else '') + '~%s()' % N)
    if k['virt']: pub.append('virtual void f_%s()%s;' % (N, ' = 0' if k['pure'] else ''))
    for c in k['conv']: pub.append(c + ';')
    for c in k['ctor']: pub.append((c.replace('explicit (', 'explicit %s(' % N) if c.startswith('explicit') else N + c) + ';')
    ms = []
    for j, m in enumerate(k['members']):
        ms.append(('K%d m%d;' % (m, j)) if isinstance(m, int) else (m % ('m%d' % j)) + ';')
    for e in k.get('extra', []): pub.append(e)
    o.append(' { public: ' + ' '.join(pub) + (' private: ' + ' '.join(pri) if pri else '') + ' %s: ' % k.get('macc', 'public') + ' '.join(ms) + ' };')
    return ''.join(o)

def gen_base(rnd, cl):
    r = rnd.random()
    if r < .35: return ('n', rnd.choice(ARITH), 'obj')
    if r < .7 and cl: return ('k', rnd.randrange(len(cl)))
    if r < .76: return ('n', rnd.choice(['En','Ec','ustl::string','Pod','Fwd']), 'obj')[:2] + ('obj',)
    if r < .8: return ('n','void','void')
    if r < .84: return ('n','decltype(nullptr)','obj')
    args = tuple(rnd.choice(FARGS) for _ in range(rnd.choice([0,0,1,1,2,3,5,9])))
    q = rnd.choice([''] * 6 + FQ[1:])
    return ('fn', rnd.choice(['void','int','Pod','char*','int&']), args, rnd.random() < .25, q)
def gen_type(rnd, cl, maxd=5):
    t = gen_base(rnd, cl)
    if t[0] == 'n' and t[1] == 'Fwd': t = ('n','Pod','obj')
    if rnd.random() < .08 and kind(t, cl) == 'obj':     # arrays of several dimensions
        for _ in range(rnd.choice([2,3,3,4,5])): t = ('A', t, rnd.randrange(1, 9))
        if rnd.random() < .4: t = ('U', t)
        if rnd.random() < .4: t = (rnd.choice('CVLRP'), t)
        return t
    for _ in range(rnd.choice([0,0,1,1,2,3,4,maxd])):
        for _ in range(8):
            c = rnd.choice('CVPPLRAUMCL')
            n = (c, t, rnd.choice([1,2,3,7,100])) if c == 'A' else (c, t)
            if kind(n, cl): t = n; break
    return t

class Item:
    """One generated case: what is compared (kind), over which types (ts), classes (cl) and other parameters (x)."""
    def __init__(s, kd, ts, cl, x=None): s.kd, s.ts, s.cl, s.x = kd, ts, cl, x
    def label(s):
        return s.kd + ': ' + ' | '.join(text(t) for t in s.ts) + (' ' + str(s.x) if s.x is not None else '')
    def used(s):
        u = set()
        def go(i):
            if i in u: return
            u.add(i)
            for b in s.cl[i]['bases']: go(b[2])
            for m in s.cl[i]['members']:
                if isinstance(m, int): go(m)
        for t in s.ts:
            l = leaf(t)
            if l[0] == 'k': go(l[1])
        if s.kd == 'members' : go(0)
        return sorted(u)
    def weight(s):
        w = sum(depth(t) + (2 if leaf(t)[0] == 'k' else 0) + (len(leaf(t)[2]) + bool(leaf(t)[4]) + leaf(t)[3] if leaf(t)[0] == 'fn' else 0) + 1 for t in s.ts)
        for i in s.used(): w += feats(s.cl[i])
        return w
    def nontrivial(s):
        if s.kd == 'macro': return s.x[1] > 2
        if s.kd in ('list','order'): return len(s.ts) > 2
        if s.kd == 'members': return len(s.x[0]) > 1
        return any(depth(t) >= 2 or (leaf(t)[0] == 'k' and feats(s.cl[leaf(t)[1]]) >= 2) or leaf(t)[0] == 'fn' for t in s.ts)
    def code(s, id):
        ns = 'item%d' % id
        o = ['namespace %s {' % ns, 'enum En { enA }; enum class Ec : short { a };']
        for i in s.used(): o.append(class_text(s.cl[i], i))
        pre, body = BODY[s.kd](s)
        o += pre
        lab = s.label().replace('\\', '\\\\').replace('"', '\\"')
        o.append('static void run() { g_item = "%d"; %s }' % (id, '\n  '.join(body)))
        o.append('}')
        return '\n'.join(o)

def feats(k):
    return len(k['bases']) + len(k['members']) + sum(bool(k[x]) for x in ('default','copy','move','cassign','massign','dtor','virt','pure','final')) + len(k['conv']) + len(k['ctor']) + (k['key'] == 'union') + len(k.get('extra', []))

def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def NOSTD(*l): return ['\n#ifndef STDONLY\n' + '\n'.join(l) + '\n#endif\n']

# --- one type ---
def complete(t, cl): return kind(t, cl) in ('obj','abs')
def b_type(s):
    t = s.ts[0]; T = text(t); n = q(T); k = kind(t, s.cl); o = []
    o.append('Categories<%s>(%s); Shape<%s>(%s); Modify<%s>(%s);' % (T, n, T, n, T, n))
    l = leaf(t)
    if l[0] == 'n' and l[1] in ARITH and l[1] not in ('float','double','long double') or l[0] != 'n': o.append('Sign<%s>(%s);' % (T, n))
    if k in ('obj','abs','ref'): o.append('Values<%s>(%s);' % (T, n))
    if k in ('obj','abs'): o.append('Properties<%s>(%s); Align<%s>(%s);' % (T, n, T, n))
    if k in ('obj','abs','ref'): o.append('Building<%s>(%s);' % (T, n))
    return [], o
# --- two types ---
def b_pair(s):
    A, B = text(s.ts[0]), text(s.ts[1]); n = q(A + ', ' + B)
    ok = all(kind(t, s.cl) in ('obj','abs','ref') for t in s.ts)
    o = ['%s<%s,%s>(%s);' % ('Relation' if ok else 'Convert', A, B, n), 'Pick<%s,%s>(%s);' % (A, B, n)]
    if ok and not any(kind(t, s.cl) == 'abs' or leaf(t)[0] == 'k' and is_abs(s.cl, leaf(t)[1]) for t in s.ts): o.append('CommonOf<%s,%s>::run(%s);' % (A, B, n))
    return [], o
def b_common(s):
    T = ','.join(text(t) for t in s.ts)
    return [], ['CommonOf<%s>::run(%s);' % (T, q(T))]
# --- Loki style traits ---
def b_loki(s):
    T = text(s.ts[0])
    return [], NOSTD('Loki<%s>(%s);' % (T, q(T)))
# --- conversions and hierarchies ---
def b_conv(s):
    A, B = text(s.ts[0]), text(s.ts[1]); n = q(A + ', ' + B)
    return [], NOSTD('EQ("ltm::Conversion::exists",%s,(ltm::Conversion<%s,%s>::exists),(std::is_convertible<%s,%s>::value) || (std::is_same<%s,%s>::value));' % (n, A, B, A, B, A, B),
        'EQ("ltm::Conversion::sameType",%s,(ltm::Conversion<%s,%s>::sameType),(std::is_same<%s,%s>::value));' % (n, A, B, A, B))
def bases_of(cl, i):
    r = set()
    for b in cl[i]['bases']: r.add(b[2]); r |= bases_of(cl, b[2])
    return r
def b_super(s):
    i, j = s.ts[0][1], s.ts[1][1]; A, B = s.x[0] % ('K%d' % i), s.x[1] % ('K%d' % j); n = q(A + ', ' + B)
    der = i in bases_of(s.cl, j); same = i == j
    return [], NOSTD('EQ("ltm::SuperSubclass",%s,(ltm::SuperSubclass<%s,%s>::value),%d);' % (n, A, B, der or same),
        'EQ("ltm::SuperSubclassStrict",%s,(ltm::SuperSubclassStrict<%s,%s>::value),%d);' % (n, A, B, der),
        'EQ("is_base_of",%s,(ustl::is_base_of<%s,%s>::value),%d);' % (n, A, B, der) if not same else '')
# --- type lists ---
def tlist(names):
    o = 'ltm::NullType'
    for n in reversed(names): o = 'ltm::Typelist<%s, %s >' % (n, o)
    return o
def b_list(s):
    ns = [text(t) for t in s.ts]; x = s.x; Ls = tlist(ns); n = q(', '.join(ns)); o = []
    key = [text(t) for t in s.ts]
    def pick(v): return v
    o.append('typedef %s List;' % Ls)
    if 1 <= len(ns) <= 9: o.append('SAME("Seq",%s,ltl::Seq<%s>::Type,List);' % (n, ', '.join(ns)))
    def eq(what, a, b): o.append('EQ("ltl::%s",%s,(%s),(%s));' % (what, n, a, b))
    def same(what, a, b): o.append('{ using Got = %s; using Want = %s; SAME("ltl::%s",%s,Got,Want); }' % (a, b, what, n))
    eq('Length', 'ltl::Length<List>::value', len(ns))
    a, b = x['a'], x['b']
    for i in range(len(ns)): same('TypeAt %d' % i, 'ltl::TypeAt<List,%d>::Result' % i, ns[i])
    for i in range(len(ns) + 2):
        same('TypeAtNonStrict %d' % i, 'ltl::TypeAtNonStrict<List,%d>::Result' % i, ns[i] if i < len(ns) else 'ltm::NullType')
        same('TypeAtNonStrict %d' % i, 'ltl::TypeAtNonStrict<List,%d,%s>::Result' % (i, b), ns[i] if i < len(ns) else b)
    for v in sorted(set([a, b] + ns)):
        eq('IndexOf ' + v, 'ltl::IndexOf<List,%s>::value' % v, ns.index(v) if v in ns else -1)
        e = list(ns)
        if v in e: e.remove(v)
        same('Erase ' + v, 'ltl::Erase<List,%s>::Result' % v, tlist(e))
        same('EraseAll ' + v, 'ltl::EraseAll<List,%s>::Result' % v, tlist([y for y in ns if y != v]))
        r = list(ns)
        if v in r: r[r.index(v)] = b
        same('Replace %s %s' % (v, b), 'ltl::Replace<List,%s,%s>::Result' % (v, b), tlist(r))
        same('ReplaceAll %s %s' % (v, b), 'ltl::ReplaceAll<List,%s,%s>::Result' % (v, b), tlist([b if y == v else y for y in ns]))
    same('Append ' + a, 'ltl::Append<List,%s>::Result' % a, tlist(ns + [a]))
    same('Append list', 'ltl::Append<List,%s >::Result' % tlist(x['l']), tlist(ns + x['l']))
    same('Append nothing', 'ltl::Append<List,ltm::NullType>::Result', 'List')
    same('NoDuplicates', 'ltl::NoDuplicates<List>::Result', tlist([y for i, y in enumerate(ns) if y not in ns[:i]]))
    same('Reverse', 'ltl::Reverse<List>::Result', tlist(ns[::-1]))
    return [], NOSTD(*o)
def b_order(s):
    # The most derived of a list, and lists arranged with derived classes in front: judged by what they must satisfy.
    ns = [text(t) for t in s.ts]; n = q(', '.join(ns) + ' of ' + repr([[b[2] for b in s.cl[i]['bases']] for i in range(len(s.cl))])); o = ['typedef %s List;' % tlist(ns)]
    top = 'K%d' % s.ts[0][1]
    ids = [t[1] for t in s.ts]; c0 = s.ts[0][1]
    der = {i: {j for j in set(ids) if i in bases_of(s.cl, j)} for i in set(ids)}     # classes derived from i
    for c in sorted(set(ids)):
        # any answer that is c or derived from it, with nothing in the list derived from the answer
        okset = [j for j in sorted({c} | (der[c])) if not (der[j] & set(ids))]
        o.append('{ typedef ltl::MostDerived<List,K%d>::Result Got; EQ("ltl::MostDerived of K%d",%s,(%s),1); }' % (c, c, n, ' || '.join('std::is_same<Got,K%d>::value' % j for j in okset)))
    o.append('{ typedef ltl::DerivedToFront<List>::Result Got; EQ("ltl::DerivedToFront length",%s,ltl::Length<Got>::value,%d);' % (n, len(ns)))
    for c in sorted(set(ids)):
        o.append('{ int k = 0; %s EQ("ltl::DerivedToFront count of K%d",%s,k,%d); }' % (' '.join('k += std::is_same<ltl::TypeAtNonStrict<Got,%d>::Result,K%d>::value;' % (i, c) for i in range(len(ns))), c, n, ids.count(c)))
    for b in sorted(set(ids)):
        for d in sorted(der[b]):
            if d in ids: o.append('{ int last = -1, first = 99; %s EQ("ltl::DerivedToFront K%d before K%d",%s,(last < first),1); }' % (' '.join('if (std::is_same<ltl::TypeAtNonStrict<Got,%d>::Result,K%d>::value) last = %d; if (std::is_same<ltl::TypeAtNonStrict<Got,%d>::Result,K%d>::value && first == 99) first = %d;' % (i, d, i, i, b, i) for i in range(len(ns))), d, b, n))
    o.append('}')
    return [], NOSTD(*o)
# --- member detection ---
def b_members(s):
    sigs, queries, svars, vqueries = s.x; pre, o = [], []
    body = ' '.join(sigs + svars)
    pre.append('\n#ifndef STDONLY\nusing ustl::true_type; using ustl::false_type; using ustl::add_pointer_t; using ustl::decay_t;')
    for i, (name, sig, want) in enumerate(queries):
        pre.append('namespace q%d { HAS_MEMBER_FUNCTION(%s, %s); }' % (i, name, sig))
        o.append('EQ("has_member_function_%s",%s,q%d::has_member_function_%s<Has>::value,%d);' % (name, q(sig + ' in ' + body), i, name, want))
    for i, (name, var, want) in enumerate(vqueries):
        pre.append('namespace w%d { HAS_STATIC_MEMBER_VARIABLE(%s, %s); }' % (i, var, name))
        o.append('EQ("has_static_member_variable_%s",%s,w%d::has_static_member_variable_%s<Has>::value,%d);' % (name, q(var + ' in ' + body), i, name, want))
    pre.append('struct Has { %s };\n#endif\n' % body)
    # the macros must come before use and after the class: order does not matter to templates
    return pre, NOSTD(*o)
# --- values: constants, storage, signedness, enumerations ---
def b_value(s):
    x = s.x; o = []; T = text(s.ts[0]); U_ = x['u']
    if T in PLAININT:
        o.append('SAME("make_signed",%s,ustl::make_signed<%s>::type,std::make_signed<%s>::type); SAME("make_unsigned",%s,ustl::make_unsigned<%s>::type,std::make_unsigned<%s>::type);' % (q(T), T, T, q(T), T, T))
        o.append('SAME("make_signed_t",%s,ustl::make_signed_t<%s>,std::make_signed_t<%s>); SAME("make_unsigned_t",%s,ustl::make_unsigned_t<%s>,std::make_unsigned_t<%s>);' % (q(T), T, T, q(T), T, T))
        o.append('{ enum E : %s {}; enum class F : %s {}; SAME("underlying_type",%s,ustl::underlying_type<E>::type,%s); SAME("underlying_type",%s,ustl::underlying_type<F>::type,%s); SAME("underlying_type_t",%s,ustl::underlying_type_t<F>,%s); }' % (T, T, q(T), T, q(T), T, q(T), T))
    v = x['v']
    o.append('{ typedef ustl::integral_constant<%s,%s> Ic; EQ("integral_constant",%s,(unsigned char)(Ic::value),(unsigned char)(%s)(%s)); EQ("integral_constant()",%s,Ic()() == (%s)(%s) && (%s)Ic() == (%s)(%s),1); SAME("integral_constant::type",%s,Ic::type,Ic); SAME("integral_constant::value_type",%s,Ic::value_type,%s); }' % (U_, v, q(U_), U_, v, q(U_), U_, v, U_, U_, v, q(U_), q(U_), U_))
    o.append('EQ("true_type","",ustl::true_type::value,1); EQ("false_type","",ustl::false_type::value,0);')
    for f in (0, 1):
        for a in (0, 1):
            for b in (0, 1): o.append('EQ("t_if","%d,%d,%d",(ustl::t_if<%d,%d,%d>::value),%d);' % (f, a, b, f, a, b, a if f else b))
    sz, al = x['sz'], x['al']
    o.append('{ typedef ustl::aligned_storage<%d,%d>::type St; EQ("aligned_storage size","%d,%d",sizeof(St) >= %d && sizeof(St) < %d+%d,1); EQ("aligned_storage alignment","%d,%d",alignof(St),%d); }' % (sz, al, sz, al, sz, sz, al, sz, al, al))
    o.append('EQ("ltm::Int2Type","%d",ltm::Int2Type<%d>::value,%d); SAME("ltm::Type2Type",%s,ltm::Type2Type<%s>::OriginalType,%s);' % (x['i'], x['i'], x['i'], q(T), T, T))
    return [], NOSTD(*o)
# --- macros ---
def b_macro(s):
    kd, n, body, sep, name = s.x; o = []
    its = [body.replace('@', str(i)) for i in range(1, n + 1)]
    pre = ['\n#define F_(n) ' + body.replace('@', 'n').replace('_n', '_##n')]
    its = [body.replace('_@', '_%d' % i).replace('@', str(i)) for i in range(1, n + 1)]
    o.append('TEXT("REPEAT %d",STR(REPEAT(%d,F_)),%s);' % (n, n, q(' '.join(its))))
    o.append('TEXT("LIST %d",STR(LIST(%d,F_,%s)),%s);' % (n, n, sep, q((' ' + sep + ' ').join(its))))
    o.append('TEXT("COMMA_LIST %d",STR(COMMA_LIST(%d,F_)),%s);' % (n, n, q(', '.join(its))))
    o.append('TEXT("ITSELF",STR(ITSELF(%s)),%s); TEXT("PASTE",STR(PASTE(%s,%d)),"%s%d");' % (its[0], q(its[0]), name, n, name, n))
    o.append('TEXT("LARG_NONE",STR(LARG_NONE(%s,%d)),"%s"); TEXT("LARG_NUMBER",STR(LARG_NUMBER(%s,%d)),"%s%d"); TEXT("LARG_REF",STR(LARG_REF(%s,%d)),"%s%d&");' % (name, n, name, name, n, name, n, name, n, name, n))
    o.append('TEXT("LARG_MT_PARAM_BY_VALUE",STR(LARG_MT_PARAM_BY_VALUE(T,%s,%d)),"T%d %s%d"); TEXT("LARG_MT_PARAM_BY_REF",STR(LARG_MT_PARAM_BY_REF(T,%s,%d)),"T%d& %s%d");' % (name, n, n, name, n, name, n, n, name, n))
    b = NOSTD(*o); b.append('\n#undef F_\n')
    return pre + ['\n'], b

BODY = dict(type=b_type, pair=b_pair, common=b_common, loki=b_loki, conv=b_conv, super=b_super, list=b_list, order=b_order, members=b_members, value=b_value, macro=b_macro)
KINDS = [('type',36),('pair',26),('common',6),('loki',10),('conv',8),('super',6),('list',5),('order',4),('members',6),('value',3),('macro',3)]

def lokiok(t, cl):
    """Types the older traits are written for: no qualified void, member function qualifiers other than const, nor references to more than 9 arguments."""
    l = leaf(t)
    if l[0] == 'n' and l[1] == 'void' and t[0] in 'CV': return False
    if l[0] == 'fn' and l[4] not in ('', 'const'): return False
    if kind(t, cl) in ('abs','fnq'): return False
    return True
def hasvoidcv(t): return False

def gen_item(rnd, kd=None):
    kd = kd or rnd.choices([k for k, _ in KINDS], [w for _, w in KINDS])[0]
    cl = []
    if kd in ('type','pair','loki'):
        for _ in range(rnd.choice([0,1,2,3,4])): cl.append(gen_class(rnd, cl))
    if kd == 'type': return Item(kd, [gen_type(rnd, cl)], cl)
    if kd == 'loki':
        for _ in range(50):
            t = gen_type(rnd, cl)
            if lokiok(t, cl): return Item(kd, [t], cl)
        return Item(kd, [('n','int','obj')], cl)
    if kd == 'pair':
        a = gen_type(rnd, cl, 3); b = gen_type(rnd, cl, 3)
        c = rnd.random()
        if c < .5:      # related: b is a with one constructor more, less or different
            t = a
            for _ in range(rnd.choice([0,1,1,2])):
                if t[0] in 'CVPLRAUM' and t[0] != 'fn' and rnd.random() < .5: t = t[1]
            for _ in range(rnd.choice([0,1,1,2])):
                k = rnd.choice('CVPLR'); n = (k, t)
                if kind(n, cl): t = n
            b = t
            if rnd.random() < .3 and leaf(b)[0] == 'k' and len(cl) > 1: b = releaf(b, ('k', rnd.randrange(len(cl))))
            if not kind(b, cl): b = a
            if rnd.random() < .5: a, b = b, a
        return Item(kd, [a, b], cl)
    simple = [('n', t, 'obj') for t in ARITH + ['En','Pod','void*','const char*','int*','const int*','decltype(nullptr)']]
    if kd == 'common':
        return Item(kd, [rnd.choice(simple) if rnd.random() < .6 else rnd.choice([('C', rnd.choice(simple)), ('L', rnd.choice(simple)), ('R', rnd.choice(simple)), ('L', ('C', rnd.choice(simple)))]) for _ in range(rnd.choice([1,2,2,3,4]))], cl)
    if kd == 'conv':
        cl.append(dict(gen_class(rnd, [], True)))
        cl.append(dict(gen_class(rnd, [], True), bases=[('public', False, 0)]))
        cl.append(dict(gen_class(rnd, [], True), bases=[], members=[], conv=rnd.sample(['operator int() const','operator const char*() const','operator K0() const'], rnd.choice([0,1,1,2])), ctor=rnd.sample([rnd.choice(['(int)','(double)']),'explicit (const char*)','(const K0&)'], rnd.choice([0,1,1,2])) ))
        for k in cl: k['members'] = [m for m in k['members'] if isinstance(m, str) and '&' not in m and 'const' not in m]
        cl[2]['members'] = [0]
        def one():
            t = rnd.choice(simple + [('k',0),('k',1),('k',2)] * 4)
            for _ in range(rnd.choice([0,0,1,2])):
                k = rnd.choice('CPL'); n = (k, t)
                if kind(n, cl): t = n
            return t
        return Item(kd, [one(), one()], cl)
    if kd in ('super','order'):
        for _ in range(rnd.choice([2,3,4,5,6])):
            k = gen_class(rnd, cl, True); k['final'] = False
            # no base class twice, except when always virtual
            def dup(bs):
                seen = set()
                for a, v, b in bs:
                    for y in {b} | bases_of(cl, b):
                        if y in seen: return True
                        seen.add(y)
                return False
            while dup(k['bases']): k['bases'] = k['bases'][:-1]
            k['bases'] = [('public', rnd.random() < .2, b) for a, v, b in k['bases']]
            k['members'] = [m for m in k['members'] if isinstance(m, str)]
            cl.append(k)
        if kd == 'super':
            return Item(kd, [('k', rnd.randrange(len(cl))), ('k', rnd.randrange(len(cl)))], cl, [rnd.choice(['%s','%s','const %s','volatile %s']), rnd.choice(['%s','%s','const %s','volatile %s'])])
        return Item(kd, [('k', rnd.randrange(len(cl))) for _ in range(rnd.choice([1,2,3,4,5,7]))], cl)
    if kd == 'list':
        pool = rnd.sample(['int','char','unsigned char','long','double','float','const int','int*','Pod','void','short','int&','bool','signed char','const char*','void(int)'], rnd.choice([2,3,5,8]))
        ns = [rnd.choice(pool) for _ in range(rnd.choice([0,1,2,3,4,5,6,8,9]))]
        return Item(kd, [('n', n, 'obj') for n in ns], cl, {'a': rnd.choice(pool), 'b': rnd.choice(pool + ['long long','Pod*']), 'l': [rnd.choice(pool) for _ in range(rnd.choice([0,1,2,3]))]})
    if kd == 'members':
        names = ['read','Run','size']; rets = ['void','int','const char*']; ars = ['','int','ustl::istream&','int, const char*','const Pod&']
        sigs = []; have = set(); queries = []; sv = []; vh = {}; used = set()
        for _ in range(rnd.choice([0,1,2,3,4])):
            nm, r, a, c = rnd.choice(names), rnd.choice(rets), rnd.choice(ars), rnd.random() < .4
            form = rnd.choice(['','','','virtual ','static '])
            if (nm, a, c) in used or (nm, a, not c) in used and form == 'static ' or (nm, a, 's') in used: continue
            if form == 'static ': c = False; used.add((nm, a, 's'))
            used.add((nm, a, c))
            priv = rnd.random() < .15
            sigs.append('%s: %s%s %s(%s)%s;' % ('private' if priv else 'public', form, r, nm, a, ' const' if c else ''))
            have.add((nm, r, a, c, form == 'static ' or priv, priv))
        anypriv = {h[0] for h in have if h[5]}
        for _ in range(rnd.choice([2,4,6])):
            if have and rnd.random() < .6:
                nm, r, a, c, st, _p = rnd.choice(sorted(have))
                m = rnd.random()
                if m < .2: r = rnd.choice(rets)
                elif m < .4: a = rnd.choice(ars)
                elif m < .6: c = not c
            else: nm, r, a, c = rnd.choice(names), rnd.choice(rets), rnd.choice(ars), rnd.random() < .4
            want = any(h[:4] == (nm, r, a, c) and not h[4] for h in have)
            queries.append((nm, '%s (O::*)(%s)%s' % (r, a, ' const' if c else ''), int(want)))
        vt = ['int','char','double','Pod','int*','const char*']
        for nm in rnd.sample(['val','cnt','tab'], rnd.choice([0,1,2])):
            t = rnd.choice(vt); st = rnd.random() < .7; priv = rnd.random() < .15
            sv.append('%s: %s%s %s;' % ('private' if priv else 'public', 'static ' if st else '', t, nm)); vh[nm] = (t, st and not priv)
        vq = []
        for _ in range(rnd.choice([1,2,3])):
            nm = rnd.choice(['val','cnt','tab']); t = vh[nm][0] if nm in vh and rnd.random() < .6 else rnd.choice(vt)
            vq.append((nm, t, int(nm in vh and vh[nm] == (t, True))))
        it = Item(kd, [], [dict(key='struct', bases=[], members=[], default='', copy='', move='', cassign='', massign='', dtor='', virt=False, pure=False, final=False, conv=[], ctor=[])], (sigs, queries, sv, vq))
        return it
    if kd == 'value':
        u = rnd.choice(['int','bool','char','unsigned','long','short','unsigned char'])
        v = rnd.choice(['0','1','5','7','100','127']) if u != 'bool' else rnd.choice(['true','false'])
        return Item(kd, [('n', rnd.choice(PLAININT), 'obj')], cl, {'u': u, 'v': v, 'sz': rnd.choice([1,2,3,4,7,8,12,16,31,64,100,rnd.randrange(1,300)]), 'al': rnd.choice([1,2,4,8,16,32,64]), 'i': rnd.randrange(-1000, 1000)})
    if kd == 'macro':
        return Item(kd, [], cl, (0, rnd.randrange(1, 10), rnd.choice(['@','f(@)','T_@','typename T_@','[@]','x@y @','T_@& t_@']).replace('x@y','x @ y'), rnd.choice([';','+','|','- -','*','x']), rnd.choice(['arg','v','Tx'])))

def releaf(t, l): return l if t[0] in ('n','k','fn') else (t[0], releaf(t[1], l)) + t[2:]

def fits(s):
    if any(kind(t, s.cl) is None for t in s.ts): return False
    if s.kd == 'loki' and not lokiok(s.ts[0], s.cl): return False
    for i in range(len(s.cl)):
        if hasvd(s.cl, i) and anyof(s.cl, i, baddtor): return False
        if any(isinstance(m, int) and is_abs(s.cl, m) for m in s.cl[i]['members']): return False
    return True
def reductions(s):
    """Items one step simpler than s."""
    out = []
    def add(ts=None, cl=None, x=None):
        n = Item(s.kd, ts if ts is not None else s.ts, cl if cl is not None else s.cl, x if x is not None else s.x)
        if fits(n): out.append(n)
    def cuts(t):
        if t[0] in ('C','V','P','L','R','A','U','M'):
            yield t[1]
            for c in cuts(t[1]): yield (t[0], c) + t[2:]
            if t[0] == 'A' and t[2] > 1: yield ('A', t[1], 1)
        elif t[0] == 'fn':
            for i in range(len(t[2])): yield ('fn', t[1], t[2][:i] + t[2][i+1:], t[3], t[4])
            if t[3]: yield ('fn', t[1], t[2], False, t[4])
            if t[1] != 'void': yield ('fn', 'void', t[2], t[3], t[4])
            if t[4]: yield ('fn', t[1], t[2], t[3], '')
        elif t[0] == 'k': yield ('n','Pod','obj'); yield ('n','int','obj')
        elif t[1] != 'int' and s.kd not in ('list','value'): yield ('n','int','obj')
    if s.kd not in ('super','order','value','list'):
        for i, t in enumerate(s.ts):
            for c in cuts(t): add(s.ts[:i] + [c] + s.ts[i+1:])
    if s.kd in ('list','order'):
        for i in range(len(s.ts)):
            if len(s.ts) > (1 if s.kd == 'order' else 0): add(s.ts[:i] + s.ts[i+1:])
    for i in s.used():
        if s.kd == 'members': break
        k = s.cl[i]
        def mod(**kw): cl = list(s.cl); cl[i] = dict(k, **kw); add(cl=cl)
        for j in range(len(k['bases'])):
            mod(bases=k['bases'][:j] + k['bases'][j+1:])
            if s.kd not in ('super','order'): mod(bases=k['bases'][:j] + [('public', False, k['bases'][j][2])] + k['bases'][j+1:]) if k['bases'][j][:2] != ('public', False) else None
        for j in range(len(k['members'])): mod(members=k['members'][:j] + k['members'][j+1:])
        for f in ('default','copy','move','cassign','massign','dtor'):
            if k[f]: mod(**{f: ''})
        for f in ('virt','pure','final'):
            if k[f]: mod(**{f: False})
        for j in range(len(k['conv'])): mod(conv=k['conv'][:j] + k['conv'][j+1:])
        for j in range(len(k['ctor'])): mod(ctor=k['ctor'][:j] + k['ctor'][j+1:])
    if s.kd == 'members':
        sg, qs, sv, vq = s.x
        for i in range(len(qs)): add(x=(sg, qs[:i] + qs[i+1:], sv, vq))
        for i in range(len(vq)): add(x=(sg, qs, sv, vq[:i] + vq[i+1:]))
    return [n for n in out if n.weight() <= s.weight()]

class Runner:
    def __init__(s, chk, src, lib, tmp):
        s.src, s.lib, s.tmp, s.n = src, lib, tmp, 0
        s.cc = {"gcc": [chk.CXX, "-std=c++14"]}
        s.chk = chk
        s.cmps = 0
    def command(s, f, out, flavor, std=False):
        return s.cc[flavor] + ["-w", "-O0", "-I" + s.src, "-I" + os.path.join(s.src, "inc")] + (["-DSTDONLY", "-fsyntax-only", f] if std else [f, os.path.join(s.lib, "libustl.a"), "-o", out])
    def unit(s, items):
        return PRE + '\n'.join(it.code(i) for i, it in enumerate(items)) + '\nint main() { %s printf ("DONE\\t%%lu\\t%%lu\\n", g_cmp, g_bad); return g_bad != 0; }\n' % ' '.join('item%d::run();' % i for i in range(len(items)))
    def compile_run(s, items, flavor, std=False):
        s.n += 1
        base = os.path.join(s.tmp, "u%d_%d" % (os.getpid(), s.n)); f = base + ".cc"
        open(f, "w").write(s.unit(items))
        try:
            r = subprocess.run(s.command(f, base, flavor, std), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if r.returncode: return None, r.stdout.decode(errors="replace")
            if std: return {}, ""
            r = subprocess.run([base], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            fails = {}; done = False
            for l in r.stdout.decode(errors="replace").splitlines():
                p = l.split("\t")
                if p[0] == "F": fails.setdefault(int(p[1]), []).append(p[2] + ": " + p[3])
                if p[0] == "DONE": done = True; s.cmps += int(p[1])
            if not done: return {0: ["the program ended with status %d" % r.returncode]}, ""
            return fails, ""
        finally:
            for x in (f, base):
                try: os.unlink(x)
                except OSError: pass
    def fails(s, items, flavor):
        """Which items disagree: {index: [what]}; items whose use of the standard library does not compile are left out (index in s.bad)."""
        if not items: return {}, set()
        r, msg = s.compile_run(items, flavor)
        if r is not None: return r, set()
        if len(items) == 1:
            r2, m2 = s.compile_run(items, flavor, True)
            if r2 is None: return {}, {0}
            e = [l for l in msg.splitlines() if " error: " in l]
            return {0: ["does not compile: " + (e[0].split(" error: ")[1] if e else msg[:200])]}, set()
        h = len(items) // 2; out, bad = {}, set()
        for off, part in ((0, items[:h]), (h, items[h:])):
            f, b = s.fails(part, flavor)
            for i, w in f.items(): out[i + off] = w
            bad |= {i + off for i in b}
        return out, bad
    def shrink(s, it, what, flavor, limit):
        end = time.time() + limit
        sig = what[0].split('<')[0] if not what[0].startswith('does not') else 'does not'
        while time.time() < end:
            c = sorted(reductions(it), key=lambda n: n.weight())[:24]
            if not c: break
            f, bad = s.fails(c, flavor)
            ok = [i for i in sorted(f, key=lambda i: c[i].weight()) if any(w.startswith(sig) for w in f[i])] or []
            if not ok: break
            n = c[ok[0]]
            if n.weight() >= it.weight() and n.label() == it.label(): break
            it, what = n, [w for w in f[ok[0]] if w.startswith(sig)]
        return it, what

def run(pid, p, tier, seed, opt, chk):
    t0 = time.time()
    src, h = chk.stage("std")
    lib = chk.libdir(src, h, "rel")
    rdir = os.path.join(chk.V, "replays", pid); os.makedirs(rdir, exist_ok=True)
    tmp = os.path.join(chk.BUILD, "c27-%d" % os.getpid()); os.makedirs(tmp, exist_ok=True)
    try: return run2(pid, p, tier, seed, opt, chk, t0, src, lib, rdir, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def run2(pid, p, tier, seed, opt, chk, t0, src, lib, rdir, tmp):
    rn = Runner(chk, src, lib, tmp)
    if "replay" in opt:
        txt = open(opt["replay"]).read(); fl = re.search(r"^// flavor (\S+)", txt, re.M).group(1)
        r = subprocess.run(rn.command(opt["replay"], os.path.join(tmp, "replay"), fl), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: print(r.stdout.decode(errors="replace")[:3000]); bad = True
        else:
            r = subprocess.run([os.path.join(tmp, "replay")], stdout=subprocess.PIPE); print(r.stdout.decode(errors="replace")); bad = r.returncode != 0
        if bad: print("VIOLATION property=%s replay=%s" % (pid, opt["replay"])); sys.exit(1)
        sys.exit(0)
    for f in glob.glob(os.path.join(rdir, "*")):
        if os.path.isfile(f): os.unlink(f)
    tb = time.time() - t0
    units, maxsec = p["tiers"][tier]
    if "maxsec" in opt: maxsec = float(opt["maxsec"])
    per, res, viol, err, lab, samples = {}, {}, [], [], {}, []
    seen = {}; flavors = ["gcc"]
    # is this compiler able to use the library at all?
    r, msg = rn.compile_run([], "gcc")
    if r is None: chk.die("the library's headers do not compile:\n" + msg[:4000])
    end = time.time() + maxsec
    cnt = {f: 0 for f in flavors}; wall = {f: 0.0 for f in flavors}; found = {}; bads = 0
    def one(u):
        fl = flavors[0]
        if u >= 8 and time.time() > end: return None
        rnd = random.Random("%d/%d" % (seed, u)); items = []
        # every unit has some of each kind; most of it by weight
        for kd, _ in KINDS: items.append(gen_item(rnd, kd))
        for j in range(3):      # every kind of function type in turn
            c = (3 * u + j) % 24
            args = tuple(rnd.choice(FARGS) for _ in range(rnd.choice([0,1,1,2,4])))
            t = ('fn', rnd.choice(['void','int','Pod']), args, c >= 12, FQ[c % 12])
            w = rnd.choice([None,'M','M','P','L'])
            if w and kind((w, t), []): t = (w, t)
            items.append(Item('type', [t], []))
        while len(items) < 70: items.append(gen_item(rnd))
        if "only" in opt: items = [i for i in items if i.kd == opt["only"]]
        t = time.time()
        f, bad = rn.fails(items, fl)
        return fl, items, f, bad, time.time() - t
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, range(units)):
            if r is None: continue
            fl, items, f, bad, w = r
            wall[fl] += w; bads += len(bad)
            for i, it in enumerate(items):
                if i in bad: continue
                x = per.setdefault(it.kd, [0, 0]); x[0] += 1; cnt[fl] += 1
                l = it.label() + ''.join(class_text(it.cl[j], j) for j in it.used())
                if it.nontrivial() and (l, fl) not in seen:
                    seen[(l, fl)] = 1; x[1] += 1
                    if len(samples) < 40: samples.append(l[:400])
            for i, w in f.items():
                k = (items[i].kd, re.sub(r'_(read|Run|size|val|cnt|tab)$', '', w[0].split('<')[0])[:60])
                if k not in found or items[i].weight() < found[k][1].weight(): found[k] = (fl, items[i], w)
    # shrink a few of the different disagreements
    todo = sorted(found.items(), key=lambda e: e[1][1].weight())[:6]
    def sh(e):
        k, (fl, it, w) = e
        return k, fl, rn.shrink(it, w, fl, 60 if tier == "quick" else 120)
    with ThreadPoolExecutor(6) as ex:
        for j, (k, fl, (it, w)) in enumerate(ex.map(sh, todo)):
            rp = os.path.join(rdir, "%s-%d.cc" % (re.sub(r"\W+", "_", k[0]), j))
            open(rp, "w").write("// property %s, %s\n// flavor %s\n// %s\n" % (pid, it.label(), fl, "\n// ".join(w)) + rn.unit([it]))
            viol.append((k[0], fl, rp, it.label()[:300] + ": " + w[0][:300]))
    if len(found) > len(todo): print("# %d further disagreements not shown" % (len(found) - len(todo)))
    cases = sum(cnt.values())
    if bads * 10 > cases + bads: err.append("%d of %d generated items are not valid programs" % (bads, cases + bads))
    for f in flavors:
        res[f] = {"evaluations": cnt[f], "distinct_nontrivial": sum(1 for l, g in seen if g == f), "wall_s": round(wall[f], 2), "per_test": {}, "labels": {}, "samples": [], "steps": 0, "discards": 0, "known": {}}
    res[flavors[0]].update(per_test=per, labels={k: v[0] for k, v in per.items()}, samples=samples[::7][:6], steps=rn.cmps, discards=bads)
    chk.finish(pid, p, tier, seed, t0, tb, res, viol, err, opt)
