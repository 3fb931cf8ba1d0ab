#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Deferred definitions run once, to completion, before anyone can look inside',
 'The deferred definition attached to a class or namespace runs at most once, on first access to the contents, and every thread that accesses the contents sees the complete definition, never a partial one. No schedule of threads that trigger the same or mutually referring deferred definitions runs one twice, touches a destroyed one, races, or deadlocks. The thread that runs a definition may itself look inside the container it is defining.',
 ['schedules'],'all interleavings of 2-3 threads performing first accesses (lookup, count, iteration, forced definition, attributes, casts, inheritance queries) on lazily defined containers, also mutually referring and nested ones',
 'Tests are single threaded: each deferred definition is triggered from one thread in one order; partial visibility, double invocation and lock cycles need a second thread at a particular point.',
 ['src/metacontainer.cpp','src/private/metacontainer_p.h','include/rtti/metadefine.h'],
 [('deferred definition trigger','src/metacontainer.cpp: checkDeferredDefine/setDeferredDefine/forceDeferredDefine'),('definition callback','include/rtti/metadefine.h: _lazy')],
 ['getClass/getMethod/getProperty/... results on a lazily defined container','number of times the callback ran'],
 [('pending definition','callback not yet run','MetaContainerPrivate')])
p('C02','Concurrent registrations keep the registry consistent',
 'Registrations made concurrently behave as if made one after another: one item per name in a container and category, every item is found by its name and at its index, none is lost, and a C++ type gets exactly one metaclass however many threads register it. When two threads register the same type under different names exactly one succeeds and the other gets the duplicate error. A class found by name is already linked to its type.',
 ['schedules'],'all interleavings of 2-3 threads registering namespaces, classes, methods, properties, enums, constructors and base classes under equal and different names, with readers',
 'Tests register everything from static initialisers of one thread.',
 ['src/metaclass.cpp','src/metacontainer.cpp','src/metanamespace.cpp','src/metamethod.cpp','src/metaproperty.cpp','src/metaenum.cpp','src/metaconstructor.cpp','src/private/metaclass_p.h'],
 [('check, create and publish','src/meta*.cpp: create'),('item lists','src/metacontainer.cpp: MetaItemList')],
 ['contents of the registry after all threads finished','errors reported to registering threads'])
p('C03','Concurrent first use of types yields one identity, fully published',
 'However many threads use a type for the first time at once, all of them get the same type identity with the same name, size, flags and decayed type, and looking the type up by name gives that identity or none. Distinct types never share an identity. No schedule exposes a partially initialised type description.',
 ['schedules'],'all interleavings of 2-3 threads first using equal, related (reference, pointer, const) and different types, mixed with lookups by name and type queries',
 'Tests use types from one thread, so registration never overlaps with anything.',
 ['src/metatype.cpp','include/rtti/metatype.h','include/rtti/typename.h'],
 [('type registry','src/metatype.cpp: CustomTypes'),('first use','include/rtti/metatype.h: metaTypeId')],
 ['MetaType(name), metaTypeId<T>() and the queries on MetaType'])
p('C04','Concurrent converter registration, removal and use is linearizable',
 'Registering, removing, querying and using value converters from several threads gives results that some sequential order of the operations gives. A conversion running while its converter is removed completes with the function that was registered, and of several simultaneous registrations for one pair of types exactly one wins. No schedule races, deadlocks or touches a destroyed converter.',
 ['schedules'],'all interleavings of 2-3 threads each doing 1-3 register/unregister/query/convert operations on one or two pairs of types',
 'Tests never remove a converter and register them from one thread.',
 ['src/metatype.cpp','include/rtti/metatype.h'],
 [('converter table','src/metatype.cpp: MetaTypeFunctionList'),('registration','include/rtti/metatype.h: registerConverter')],
 ['results of registerConverter/hasConverter/variant::to'])
p('C05','Queries and calls are safe concurrently with each other and with registration',
 'Looking items up, iterating, reading names, owners and attributes, casting, converting and invoking from several threads, while other threads register further items, involves no data race and no deadlock and every query answers as if made at one moment. Items already returned stay valid. Iteration visits each item present when it began, once, in order, and the visitor may itself query or register.',
 ['schedules'],'all interleavings of 2-3 threads of readers (qualified names, attributes, lookups, iteration, casts, invocation, property access) with readers and registrars',
 'Tests read from one thread; a race or lock cycle between a query and a registration cannot occur in them.',
 ['src/metaitem.cpp','src/metacontainer.cpp','src/metaclass.cpp','src/private/metaitem_p.h','src/private/metacontainer_p.h','src/private/metaclass_p.h'],
 [('reader/writer locks of the item, attribute, base and derived lists','src/private/*_p.h'),('qualified name','src/metaitem.cpp')],
 ['results of queries; race and deadlock freedom of every schedule'])
p('T01','Type identity and introspection agree with the C++ type system',
 'Two C++ types have the same type identity exactly when they are the same type, and a registered type is found again by its printed name. Reported size, constness, reference kind, pointer depth, pointer/array/class/function classification, traits flags and decayed type agree with the C++ type traits for every type. An unknown name gives an invalid type.',
 ['programs','inputs'],'every type built from a set of base types by up to 3 layers of const, pointer, array, and reference constructors, against the standard type traits',
 'Tests look at a dozen hand picked types and only at size and name.',
 ['include/rtti/metatype.h','src/metatype.cpp','include/rtti/misc_traits.h','include/rtti/typename.h'],
 [('type description','include/rtti/metatype.h: type_flags, meta_type'),('registry','src/metatype.cpp: CustomTypes')],
 ['MetaType queries'])
p('T02','Type compatibility follows C++ reference and qualification rules',
 'A type is reported compatible with another exactly when a value of the first, kept decayed, may be viewed as the second without losing constness at any pointer level, binding a mutable reference to a non-lvalue, binding an rvalue reference to an lvalue, changing pointer depth, or growing an array. The answer agrees with the implicit qualification conversions of C++ for every pair of types of the same base. Compatibility is reflexive for values and const references.',
 ['programs','inputs'],'all ordered pairs of types over one base with pointer depth up to 3, every const placement, arrays, and each reference kind (thousands of pairs), against std::is_convertible',
 'Tests exercise compatibility only through a handful of variant casts.',
 ['src/metatype.cpp','include/rtti/metatype.h','include/rtti/misc_traits.h'],
 [('compatibility','src/metatype.cpp: MetaType::compatible'),('const levels','include/rtti/misc_traits.h: const_bitset')],
 ['MetaType::compatible; variant::is'])
p('T03','Type descriptions print faithfully',
 'Printing a type lists its identity, its name and exactly the names of the flags it has, each once, for every combination of flags, without reading outside the name table.',
 ['inputs'],'all single flags, all pairs of flags, and every type of the type universe of T01',
 'No test prints a type.',
 ['src/metatype.cpp','include/rtti/metatype.h','include/rtti/signature.h'],
 [('flag printing','src/metatype.cpp: operator<<(TypeFlags)')],['stream output'])
p('V01','Variants are regular values: copies equal, moves transfer, no interference',
 'A variant holds exactly the value, type and emptiness it was last given by construction, assignment, move, swap, clear or conversion; copies are equal and independent of their source, a moved-from or cleared variant is empty, and self-assignment and swap change nothing but places. Variants made from references alias the referenced object and never copy or destroy it. This holds for values kept in place, on the heap, references, arrays and pointers alike.',
 ['histories'],'all operation histories up to a depth over 2-3 variants and a set of value kinds (small, large, over-aligned, copy only, move only, throwing move, array, pointer, reference), compared with a reference model after each step',
 'Tests run one fixed history per kind; a wrong branch of swap or copy shows only in particular combinations of kinds and steps.',
 ['include/rtti/variant.h','include/rtti/detail/variant_impl.h','src/variant.cpp'],
 [('storage and swap','src/variant.cpp'),('function tables','include/rtti/detail/variant_impl.h')],
 ['variant::empty/typeId/value/==' ])
p('V02','Variant lifetimes balance under every fault',
 'Whatever operation fails - allocation, copy, move or conversion - and wherever it fails, the exception reaches the caller, the program is not terminated, nothing leaks, no object is destroyed twice or used before construction or after destruction, and every variant involved stays usable with its previous value or empty. Every object a variant holds is suitably aligned. An object made through the description of its type is default constructed, copied or moved as asked.',
 ['fault_sequences','histories'],'every operation history of V01 up to a depth, with a fault injected at each allocation and each throwing constructor reached, one (and two) per run',
 'Tests inject no faults and count constructions in a single history.',
 ['include/rtti/variant.h','include/rtti/detail/variant_impl.h','src/variant.cpp','include/rtti/metatype.h'],
 [('heap and in-place storage','include/rtti/detail/variant_impl.h'),('low level construction','include/rtti/metatype.h: type_function_table_impl')],
 ['live object and memory balance; state after the fault'])
p('V03','Access to a variant is type safe, const correct and consistent',
 'A variant gives access as a type exactly when the held type permits it under the compatibility rules (or class inheritance), never as an unrelated type and never mutably to const data; queries, references, pointers and conversions to a type agree with each other on whether it is allowed. Access yields the held object itself, not a copy, and a failed access throws the documented error or yields null and changes nothing.',
 ['programs','inputs'],'all pairs of (held type x how it was put in, requested type x access function) over a type universe with every const placement, pointers, arrays, and references',
 'Tests touch a few allowed accesses and almost none of the forbidden ones.',
 ['include/rtti/variant.h','src/metatype.cpp','include/rtti/detail/variant_impl.h'],
 [('metafunc_is / metafunc_cast / metafunc_to','include/rtti/variant.h')],
 ['variant::is/ref/cref/rref/data/to'])
p('V04','Variant equality is an equivalence over type and value, and hash agrees',
 'Comparing variants is reflexive, symmetric and transitive, holds exactly when both are empty or both hold equal values of the same decayed type, and does not depend on whether a value is held by value, reference, const, in place or on the heap. Equal variants have equal hashes. Comparing values without an equality operator reports an error and nothing else.',
 ['inputs'],'all pairs and triples over a universe of variants: many types, several values each (signed zeros, equal strings in different buffers, padded structs, arrays of different lengths, pointers of different constness), each held every possible way',
 'Tests compare a few equal strings and numbers in one direction and never hash.',
 ['src/variant.cpp','include/rtti/variant.h','include/rtti/detail/variant_impl.h'],
 [('operator==','src/variant.cpp'),('std::hash<variant>','include/rtti/detail/variant_impl.h')],
 ['operator==, operator!=, eq, std::hash'])
p('V05','Conversions use exactly the registered converters and fail cleanly',
 'A conversion succeeds exactly when the types are compatible or a converter for the decayed pair is registered and reports success, and yields what that converter computed from the held value; after removal it is not used any more, and after a new registration the new one is used. Registering a second converter for a pair is refused. A failed conversion throws from the throwing form, returns false from the other, leaves the variant as it was and leaks nothing.',
 ['histories','fault_sequences'],'all histories up to a depth of register (free function, functor, success-flag functor, member function, converting constructor), unregister, query, convert, try-convert, compare-with-conversion on several type pairs, with converters that succeed, refuse or throw',
 'Tests register a few converters once and only convert successfully.',
 ['include/rtti/metatype.h','src/metatype.cpp','include/rtti/variant.h','include/rtti/detail/variant_impl.h'],
 [('converters','include/rtti/metatype.h: ConvertFunctor*, registerConverter'),('conversion','include/rtti/variant.h: metafunc_to, convert, tryConvert')],
 ['registerConverter/hasConverter results; variant::to/convert/tryConvert/canConvert/eq'])
p('R01','Containers form a faithful tree of uniquely named items in definition order',
 'After any sequence of definitions each container holds exactly the items defined in it, one per name and category, found by name and at the index of their definition order, with correct count, owner, category and qualified name from the root; redefining a name adds nothing and keeps the first, and reopening a namespace or class continues it. Items keep their address for the life of the program. Unknown names and indexes give null.',
 ['histories'],'all sequences up to a depth of namespace/class/enum/method/property/constructor definitions, reopenings and closings over a few names, compared with a reference tree after each step',
 'Tests check one fixed tree.',
 ['src/metacontainer.cpp','src/metanamespace.cpp','src/metaclass.cpp','src/metaitem.cpp','include/rtti/metadefine.h'],
 [('item lists','src/metacontainer.cpp: MetaItemList'),('builder','include/rtti/metadefine.h: meta_define')],
 ['getX(name), getX(index), xCount, for_each_*, owner, qualifiedName'])
p('R02','Member lookup resolves overloads and inheritance by nearest definition',
 'A method is found by its full signature, or by bare name as the first defined overload; a property by its name. A class finds its own members first and then those of its bases in declaration order, depth first, so that an own member always hides one inherited, in whatever order bases and members were declared. A name that is defined nowhere on the path is not found and no method is found through a name that is merely a prefix or extension of its own.',
 ['histories','programs'],'all definition orders of overloads and properties over base/derived graphs of up to 4 classes, with every lookup key (bare, full, prefix, extension, wrong parameters)',
 'Tests look up unique names in one definition order.',
 ['src/metacontainer.cpp','src/metaclass.cpp','src/metamethod.cpp','src/metaproperty.cpp'],
 [('findMethod','src/metacontainer.cpp'),('getMethodInternal/getPropertyInternal','src/metaclass.cpp')],
 ['getMethod, getProperty, variant::invoke/get_property'])
p('R03','Attributes and enum elements are ordered name-value maps',
 'Attributes of any item and elements of an enum keep the order in which their names were first given and the last value given to each; count, access by name, access by index, names and iteration all describe the same map. A value that was returned stays where it is and shows the last one given. Attributes attach to the item most recently opened or closed to, and asking for an unknown name or index yields an empty value.',
 ['histories'],'all sequences up to a depth of attribute and element settings (new, repeated, empty names; values of several types) on namespaces, classes and enums, compared with a reference map',
 'Tests set a few attributes once and read them by name.',
 ['src/metaitem.cpp','src/private/metaitem_p.h','src/metaenum.cpp','include/rtti/metadefine.h'],
 [('NamedVariantList','src/private/metaitem_p.h'),('_attribute/_element','include/rtti/metadefine.h')],
 ['attribute*, element*, for_each_attribute, for_each_element'])
p('R04','Each C++ class has at most one metaclass and misuse is reported',
 'A C++ type is registered as at most one class in the whole tree, and is found through its type, its type name, its container and variants holding it alike; registering it elsewhere, registering another type under a taken name, naming an unregistered base or attaching a second deferred definition raises the corresponding error and leaves the registry as it was. Default, copy and move constructors are offered exactly when the C++ type has them.',
 ['histories'],'all sequences up to a depth of registrations of 3 types under 2 names in 2 namespaces, base declarations and deferred definitions, with the error or result of each step compared with a reference model',
 'Tests only register correctly.',
 ['src/metaclass.cpp','src/metacontainer.cpp','include/rtti/metadefine.h','include/rtti/metaclass.h'],
 [('MetaClass::create/addBaseClass','src/metaclass.cpp'),('setDeferredDefine','src/metacontainer.cpp')],
 ['exceptions of the builder; MetaClass::find, getClass, variant::metaClass'])
p('R05','A deferred definition is indistinguishable from an immediate one',
 'A container defined by a deferred definition shows, to every query in whatever order queries are made, the same contents as the same definition made immediately, and nothing is defined before the first query of the contents. Forcing definition defines the container, and recursively everything below it when asked to. A deferred definition may define into other containers and query any of them.',
 ['histories'],'all first-query choices and query orders over lazily defined trees of containers, nested and mutually referring, compared with the eagerly defined tree',
 'Tests define one class lazily and query it one way.',
 ['src/metacontainer.cpp','src/metaclass.cpp','src/metaitem.cpp','include/rtti/metadefine.h'],
 [('checkDeferredDefine at every accessor','src/metacontainer.cpp, src/metaclass.cpp, src/metaitem.cpp'),('forceDeferredDefine','src/metacontainer.cpp')],
 ['every query function on containers and classes'])
p('H01','Class casts agree with C++ on every inheritance graph',
 'For every registered hierarchy - single, multiple, virtual, diamond - inheritance queries answer true exactly for the class itself and its direct and indirect bases, and casts up, down and across agree with the C++ dynamic cast on the same object, giving the address C++ gives, or null or an error exactly when C++ does. Base and derived lists mirror the declarations.',
 ['programs'],'all inheritance graphs of up to 4 (thorough: 5) classes with each edge absent, ordinary or virtual that are valid and unambiguous C++; all (dynamic class, static class, target class) triples in each',
 'Tests have three fixed hierarchies.',
 ['src/metaclass.cpp','include/rtti/metaclass.h','src/private/metaclass_p.h','include/rtti/metadefine.h'],
 [('inheritedFrom/cast','src/metaclass.cpp'),('meta_cast, classInfo','include/rtti/metaclass.h'),('metacast_to_base','include/rtti/metadefine.h')],
 ['meta_cast, inheritedFrom, baseClass, derivedClass'])
p('V06','Variants see the dynamic class of what they hold',
 'A variant holding an object, pointer or reference to a registered polymorphic class reports its most derived class, may be viewed and converted as any registered base with the address C++ would give, keeps constness, and refuses any other class; the by-type query and the conversion always agree. A null pointer is convertible to pointers to bases and remains null, and never crashes.',
 ['programs','inputs'],'the hierarchies of H01; each object held by value, by reference, by const reference, by pointer and pointer to const, each viewed as each class; null pointers',
 'Tests cover three hierarchies, upward only, never null.',
 ['include/rtti/variant.h','include/rtti/detail/variant_impl.h','src/metaclass.cpp'],
 [('class_info_get','include/rtti/detail/variant_impl.h'),('metafunc_*::cast','include/rtti/variant.h')],
 ['variant::is/ref/to/data/metaClass on class values and pointers'])
p('I01','Invocation passes arguments and results faithfully or refuses',
 'Invoking a method, function or constructor through its description calls the C++ function exactly once with the given arguments, bound as C++ would bind them (lvalues by reference, rvalues moved, values copied or converted by registered conversions) and returns its result, by reference when the function returns a reference. A wrong number of arguments, a missing argument, an argument of a type that cannot be bound, a mutable reference to const data or to a temporary, is reported as an error without calling the function.',
 ['programs','inputs'],'all parameter passing kinds x all argument kinds (type, constness, lvalue/rvalue, plain or inside a variant or reference wrapper), 0-10 parameters with every argument count, every result kind, against a C++ oracle',
 'Tests invoke a few functions with matching arguments.',
 ['include/rtti/variant.h','include/rtti/detail/argument_impl.h','include/rtti/detail/metamethod_impl.h','include/rtti/metadefine.h'],
 [('argument::value','include/rtti/detail/argument_impl.h'),('method_invoker, pack_arguments','include/rtti/metadefine.h')],
 ['MetaMethod::invoke, MetaConstructor::invoke, variant::invoke; effects of the called function'])
p('I02','Instance methods and properties respect the constness of the instance',
 'A method is invoked on the very object the variant holds, refers or points to, and a mutating method or property write never reaches an object through a const variant, const reference or pointer to const: it is reported as an error and the object is unchanged. Methods of a base class work on derived instances at the right address; instances that are empty, null pointers, of another class, or not classes are refused. Members called with or without an instance against their kind are refused.',
 ['programs','inputs'],'all instance kinds (value, reference, const reference, pointer, pointer to const, pointer variant, derived, unrelated, empty, scalar) x const and non-const variant x const and mutating methods, fields, getters and setters',
 'Tests call methods on a value and one reference.',
 ['include/rtti/metadefine.h','include/rtti/variant.h','include/rtti/detail/metamethod_impl.h'],
 [('method_invoker::invoke_imp','include/rtti/metadefine.h'),('property_invoker','include/rtti/metadefine.h')],
 ['MetaMethod::invoke, MetaProperty::get/set, variant::invoke; state of the object'])
p('I03','Properties read back what was written and honour read-only',
 'Reading a property yields the current value of the variable, field or getter it describes; writing stores exactly the converted value or is refused with an error leaving it unchanged, read-only properties refuse every write, and static and field properties refuse each other\'s calling form. Histories of reads and writes through properties, through the object directly and through methods all agree.',
 ['histories','inputs'],'all histories up to a depth of get/set over static variables, const variables, fields, const fields, getter/setter pairs (static and member) with values of matching, convertible and wrong types',
 'Tests read and write each property once.',
 ['include/rtti/metadefine.h','include/rtti/variant.h','src/metaproperty.cpp'],
 [('property_invoker, PropertyInvokerEx','include/rtti/metadefine.h'),('MetaProperty get/set','include/rtti/variant.h')],
 ['MetaProperty::get/set/readOnly, variant::get_property/set_property'])
p('I04','Exceptions inside calls reach the caller and break nothing',
 'When a function, method, constructor, getter or setter called through its description throws, or a copy or move of an argument, instance or result or an allocation fails during the call, the caller receives that very exception and the function was called at most once. No object is leaked, lost or destroyed twice and no memory is leaked; arguments and the instance keep their values apart from what the function itself did and what was given as expiring. The same call can be made again and then gives what it would have given.',
 ['fault_sequences','inputs'],'every allocation, every copy and move of an object and every throwing point of the user function reached by calls of each kind of function, with objects that are small, large, throwing when moved or move-only given as lvalues, rvalues, variants, references and pointers, failed one at a time, with seven types of exceptions',
 'Tests inject no faults and no function of theirs throws.',
 ['include/rtti/metadefine.h','include/rtti/variant.h','include/rtti/detail/argument_impl.h','include/rtti/detail/variant_impl.h','src/variant.cpp'],
 [('invokers','include/rtti/metadefine.h'),('arguments','include/rtti/detail/argument_impl.h'),('results in variants','include/rtti/detail/variant_impl.h')],
 ['exceptions at the caller, lifetime of tracked objects, memory balance, repeated call'])
p('R06','A failed registry operation leaves the registry consistent and repeatable',
 'When an allocation fails inside a registration, a deferred definition or a query, or user code called by one (a definition, a visitor, a copy of a converter) throws, the caller gets that exception or the operation completes correctly - never a wrong or truncated answer. Afterwards the registry holds a prefix of the operation: every item present is complete, is found both by its index and by its name, and classes are linked with their types and bases; no lock stays held. Repeating the operation completes it as if it had not failed, and no memory is lost.',
 ['fault_sequences','histories'],'every allocation and every throwing point reached by each of 16 registration operations (namespaces, overloads, properties, enums, attributes, classes with members and bases, deferred definitions and the queries that run them) after each other one, by converter registration in six forms, and by 25 kinds of queries, failed one at a time (thorough: in pairs)',
 'Tests inject no faults.',
 ['src/metacontainer.cpp','src/metaclass.cpp','src/metatype.cpp','src/private/metaitem_p.h','include/rtti/signature.h','include/rtti/metadefine.h'],
 [('registration','src/meta*.cpp: create, MetaItemList::add'),('attributes and elements','src/private/metaitem_p.h: NamedVariantList::set'),('type registration','src/metatype.cpp: addTypeInfo, converters')],
 ['contents of the registry after the failure and after the repetition, memory balance'])
p('S01','Static objects may use everything before main and until the program ends',
 'Types, values, conversions, namespaces, classes and registrations may be used from constructors of static objects, even before the library itself is initialised (statically linked programs), with the same results as in main; nothing registered then is lost. At exit, an object whose construction began after a facility was first used can rely on it in its destructor; earlier objects, attributes, converters and deferred definitions being destroyed with the registry get either the right answer or "unknown" (invalid type, no class, no conversion, refused access, unequal values), never a destroyed object, a wrong answer, a deadlock or termination. Variants held by static objects are destroyed properly whenever they were created.',
 ['histories','schedules'],'all orders of first use of types, converters, the global namespace, classes, derived classes, namespaces, variants and creation of static objects with destructors that query everything, to a depth, each prefix before the initialisation of the library, each in a process of its own run to its end',
 'Tests use the registry from main only, dynamically linked, and look at nothing at exit; order of initialisation and destruction is fixed in one program.',
 ['src/metatype.cpp','src/metanamespace.cpp','src/metaclass.cpp','src/variant.cpp','src/metaitem.cpp'],
 [('Destroyed flags','src/metatype.cpp: customTypes, customConverters'),('global namespace','src/metanamespace.cpp: MetaNamespace::global'),('empty variant','src/variant.cpp: variant::empty_variant')],
 ['answers of queries in static constructors and destructors, end of the process'])
p('M01','The building blocks compute what they say for every type, and guards run once',
 'Operations on type lists (size, element, index, presence, push, pop, remove, remove duplicates, concatenation, map, filter, folds, equality up to order, conversion to tuples and index sequences) give for every list what the same operation gives for a sequence. Function traits describe every function pointer, method with any qualifiers, functor, lambda and std::function as the compiler does (class, qualifiers, result, arguments, signatures), and make_function gives a callable that does the same. Detection of nested types, methods and calls agrees with the language. Traits of types (decay through references, pointers, arrays and qualifiers, classes of types, array shapes, template names), typed flags and the helpers for text and identifiers compute what they say for every type, set and text. The function of a scope guard runs exactly once when the guard that has it last ends, however the scope is left, and never when the guard was dismissed.',
 ['inputs','histories'],'all type lists of three kinds of elements up to a length and pairs of them under every operation; all combinations of results, arguments and qualifiers of functions; all types of up to four constructors over six bases; all histories of making, moving, assigning, dismissing and leaving scope guards to a depth',
 'Tests use none of these directly; the library instantiates a few of the cases.',
 ['include/rtti/typelist.h','include/rtti/function_traits.h','include/rtti/sfinae.h','include/rtti/finally.h','include/rtti/misc_traits.h','include/rtti/tagged_id.h','include/rtti/signature.h'],
 [('type lists','include/rtti/typelist.h'),('function traits','include/rtti/function_traits.h'),('scope guard','include/rtti/finally.h'),('traits of types','include/rtti/misc_traits.h')],
 ['resulting types and values, number and order of runs of guarded functions'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
