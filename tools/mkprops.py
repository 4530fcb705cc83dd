"""Writes properties.jsonl (kept as a script so the texts stay editable)."""
import json, os
P = []
D = 'src/zope/security/'
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[D + f for f in files],
            state=[dict(name=n, meaning=m) for n, m in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop('C01', 'Complete mediation: nothing reaches a proxied object without its checker',
 "Every operation on a security-proxied object, other than truth value, hash, comparison and length hint, first asks the proxy's checker about exactly that operation under its documented name (reading an attribute as a read of that name, setting or deleting one as a write, any other operation under its special-method name, reflected operations under the reflected name), once it asks the checker nothing of the object has been touched, and if the checker refuses the object is not touched at all and the refusal is what the caller sees (string conversion yields a generic text instead). Code that holds only the proxy cannot read, replace or remove the proxied object or the checker through it.",
 ['inputs', 'histories', 'schedules', 'configurations'],
 'every operation of the data model in every operand position (forward, reflected, both proxied, in-place, 2- and 3-argument power, items, slices, C-level sequence access), every policy of granted and refused names, in any history of operations and under any interleaving with other threads, in the C and the Python implementation',
 'The unit tests call each slot once or a few times with a fixed checker; they neither combine operand positions with histories, concurrent declaration changes and nested results, nor observe that a refused operation left the object untouched at the instant of the check.',
 ['proxy.py', '_proxy.c'],
 [('slot functions call the checker first', D + '_proxy.c: check, check1, check2, check2i, proxy_*'), ('wrapper around each special method', D + 'proxy.py: _check_name, _check_name_inplace, ProxyPy')],
 ['calls received by the checker or the security policy', 'touches recorded by the proxied object', 'exceptions and results at the caller'])

prop('C02', 'Results of operations on proxied objects are protected in turn',
 "Every object obtained through a security proxy - attribute, item, call result, iteration step, arithmetic, in-place or comparison result, through any chain of such operations - is handed out wrapped in a security proxy whose checker is the one registered for that object (its own or its type's, or the forbid-everything default), unless it already is a proxy or is declared as needing none. An in-place operation that returns the object itself gives back the same proxy, which still stands for the same object with the same checker.",
 ['inputs', 'histories', 'schedules', 'configurations'],
 'every chain of granted operations of any length over object graphs with own checkers, registered types, basic types, unregistered types and proxies, under any interleaving with changes to the checker registry, in both implementations',
 'Tests check the wrapping of single results; a missing wrap on one slot or for one kind of result is only visible on chains that reach it, and results depend on the registry at that instant.',
 ['proxy.py', '_proxy.c', 'checker.py', '_zope_security_checker.c'],
 [('result wrapping', D + '_proxy.c: PROXY_RESULT; ' + D + 'proxy.py: checker.proxy(res)'), ('IChecker.proxy', D + 'checker.py: CheckerPy.proxy; ' + D + '_zope_security_checker.c: Checker_proxy')],
 ['type, checker and identity of what each operation returns'])

prop('C03', 'Failures during authorization deny access',
 "If anything fails while an operation is being authorized or its result is being protected - the security policy, the interaction (including there being none), a checker, a checker factory or memory allocation fails, or the thread is interrupted at any point - the operation is not performed as if granted and no unprotected result is handed out: before the decision the object stays untouched, and the failure itself reaches the caller, except that string conversion answers with a generic text that reveals only the class and address. Afterwards the proxy works as if the failed operation had not been attempted.",
 ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
 'every kind of failure (any exception, including interrupts and memory exhaustion) at every callback, allocation and bytecode line between the start of an operation and its end, for every operation, in both implementations',
 'The tests inject a handful of refusals (Unauthorized, ForbiddenAttribute); they never let the policy, a factory or the allocator fail, nor interrupt a check half-way.',
 ['proxy.py', '_proxy.c', 'checker.py', '_zope_security_checker.c'],
 [('error return paths of check and proxy', D + '_proxy.c: check, PROXY_RESULT; ' + D + '_zope_security_checker.c: checkPermission, Checker_check_int, Checker_proxy, selectChecker'), ('generic text', D + '_proxy.c: default_repr; ' + D + 'proxy.py: __str__, __repr__')],
 ['touches of the object after the fault', 'exception or result at the caller', 'later operations on the same proxy'])

prop('C04', 'Decisions follow the declaration and a fresh answer of the current policy',
 "A name-based checker lets an operation pass if and only if its name is declared public, or is declared with a permission and the security interaction of the calling thread, asked at that moment with exactly that permission and the unproxied object, answers true, or is undeclared and among the always-available names (iterating over an object without an iteration method of its own is, unless declared, a read of its items); reads and writes use their separate declarations, a refused permission raises Unauthorized and an undeclared (or explicitly unset) name raises the forbidden-attribute error. No decision is remembered: a changed declaration, policy answer or interaction is effective from the next operation on, for every existing proxy.",
 ['inputs', 'histories', 'schedules'],
 'every declaration of names and permissions, every stateful policy (answers that change over time, truthy and falsy objects), every interleaving of checks with changes of declarations, grants and interactions',
 'Tests use one interaction and constant answers; freshness (no caching, nothing read too early) only shows when grants and declarations change between or during operations.',
 ['checker.py', '_zope_security_checker.c', 'management.py'],
 [('check and check_setattr', D + 'checker.py: CheckerPy; ' + D + '_zope_security_checker.c: Checker_check_int, Checker_check_setattr, checkPermission'), ('always-available names', D + 'checker.py: _available_by_default')],
 ['questions received by the policy', 'exception or result at the caller'],
 state=[('get_permissions / set_permissions', 'name to permission, mutable and shared by all proxies using the checker')])

prop('C05', 'Security interactions are isolated between threads',
 "Whatever threads do and however they interleave, the current interaction, the one that can be restored, and every authorization decision of a thread depend only on that thread's own begin, end and restore calls: an interaction is never seen, ended, restored or used for a decision by another thread. A new thread starts with none, also when it reuses the identity of a thread that died without ending its interaction.",
 ['schedules', 'histories', 'crash_points'],
 'every interleaving of any number of threads that start, end, restore, query and use interactions, and of threads that start or die at any point',
 'The test suite is single-threaded but for one or two trivial cases; isolation is a statement about all interleavings and thread lifetimes.',
 ['management.py', '_definitions.py', 'checker.py', '_zope_security_checker.c'],
 [('thread-local storage', D + '_definitions.py: thread_local'), ('interaction management', D + 'management.py')],
 ['getInteraction/queryInteraction per thread', 'which interaction answered each check'],
 state=[('thread_local.interaction / previous_interaction', 'current and last ended interaction of the thread')])

prop('C06', 'Interaction life cycle: begin, end, restore and the scoped form',
 "In each thread, beginning an interaction succeeds only when none is active and makes a fresh one from the current policy the active one; beginning while one is active raises an error and changes nothing; ending leaves none active and remembers the ended one (or that there was none); restoring brings back exactly what was remembered, and may be repeated. The scoped form begins an interaction for its principal if none was active and ends it however its body leaves, and leaves an already active one alone; if the policy or a participation fails while beginning, or the call is interrupted, the thread has either the state before or the state after the call and nothing else.",
 ['histories', 'fault_sequences', 'crash_points'],
 'every sequence of new, end, restore, scoped, query and policy-setting calls, with the policy factory or a participation failing at any point, interrupts at any line and generators closed at any point',
 'Tests exercise a few fixed sequences without failures; the statement is about all histories and about failures in the middle of a call.',
 ['management.py', 'testing.py', 'simplepolicies.py'],
 [('newInteraction, endInteraction, restoreInteraction', D + 'management.py'), ('interaction context manager', D + 'testing.py: interaction, create_interaction')],
 ['getInteraction, queryInteraction, NoInteraction, results of checkPermission'],
 state=[('thread_local.interaction / previous_interaction', 'current and last ended interaction of the thread')])

prop('C07', 'Default policies and the participation bookkeeping',
 "Under the default (paranoid) policy a non-public permission is granted exactly while every participation's principal is the system user itself (so also when there is no participation), judged anew at each check; the permissive policy grants everything, and the public permission is always granted. A participation belongs to at most one interaction: adding one that already belongs to some, or removing one that does not belong to this one, is refused without changing anything, and otherwise membership and the participation's back reference change together; a failure to read a principal is never a grant.",
 ['histories', 'fault_sequences', 'schedules'],
 'every sequence of adding, removing, changing principals and checking over several interactions, with participation attributes failing at any point, from several threads with their own participations',
 'Tests check single add/remove calls and fixed principal lists; they do not interleave membership changes with checks or let participations fail.',
 ['simplepolicies.py', '_definitions.py', 'management.py'],
 [('ParanoidSecurityPolicy, PermissiveSecurityPolicy', D + 'simplepolicies.py'), ('system_user', D + '_definitions.py')],
 ['checkPermission answers', 'participations lists and back references'])

prop('C08', 'Checker registry and checker selection',
 "The checker chosen for an object is decided by the exact registration of its type at that moment: a registered checker as is, a registered factory followed until it gives a checker, nothing at all for types registered as needing no proxy or when a factory says so, and the forbid-everything default for unregistered types (no inheritance). A type or module can be given a checker only if it has none; a refused or failed definition, removal or lookup changes nothing; wrapping an object honours its own checker first, returns an existing proxy unchanged, and refuses to change the checker of an existing proxy.",
 ['histories', 'schedules', 'fault_sequences'],
 'every history of defining, undefining, basic-type updates, lookups and wrapping by any threads on distinct types, with factories (chains, faults, re-entrant registry changes) behaving in any way',
 'Tests look at single registrations; the registry is global mutable state whose correctness is about histories and about what factories do during a lookup.',
 ['checker.py', '_zope_security_checker.c'],
 [('defineChecker, undefineChecker, selectChecker, ProxyFactory', D + 'checker.py'), ('selectChecker', D + '_zope_security_checker.c'), ('_BasicTypes', D + 'checker.py')],
 ['selected checkers', 'checker and object of the proxies made', 'errors'],
 state=[('_checkers', 'type or module to checker, factory or no-proxy marker'), ('BasicTypes', 'types declared as needing no proxy')])

prop('C09', 'Combined checkers and decorators grant what either side grants',
 "A combined checker lets an operation pass exactly if its first or else its second checker does, does not ask the second when the first allows, and otherwise raises Unauthorized if either side did and the forbidden-attribute error if both did; any other failure of a side it asks is passed on and never grants. A protected decorator (or location proxy) around an object is checked by the combination of its own class's checker and that of the object it wraps, whichever exist.",
 ['inputs', 'histories', 'fault_sequences', 'schedules'],
 'every combination of outcomes of the two sides for reads, writes and other operations, outcomes that change over time or fail with any exception, and any nesting of decorators over proxied and bare objects',
 'Tests enumerate the table once with constant outcomes; they have no failing sides, changing outcomes or nested decorators.',
 ['checker.py', 'decorator.py'],
 [('CombinedChecker', D + 'checker.py'), ('DecoratedSecurityCheckerDescriptor', D + 'decorator.py')],
 ['which sides were asked, in which order', 'exceptions and results at the caller'])

prop('C10', 'Asking whether access is possible agrees with trying it',
 "For any object, proxied or not, asking whether a name can be read answers true exactly when reading that name through its security proxy would be authorized at that moment, false when it would be unauthorized, and raises the forbidden error when it is forbidden; asking whether it can be written does the same for writing, except that a forbidden write of a readable or read-unauthorized name answers false. Asking never touches the object's named attribute, failures of the policy come through unchanged, and checking a permission directly is true for the public permission, an error without an interaction, and otherwise the interaction's own answer.",
 ['inputs', 'histories', 'fault_sequences', 'schedules'],
 'every declaration and policy state at the moment of the question, every history of changes in between, every failure of the policy or of a checker factory, in any thread',
 'Tests use fixed checkers; agreement with the enforced decision is a relation over all declarations, histories and failures.',
 ['checker.py', 'management.py'],
 [('canAccess, canWrite', D + 'checker.py'), ('checkPermission', D + 'management.py')],
 ['answers compared with the outcome of the real operation in the same state'])

prop('C11', 'Protection declarations take effect exactly as declared',
 "After a configuration (directives for classes and modules, or the corresponding calls) has been executed, each declared name of each class or module requires exactly the declared permission for reading or writing, names covered by an interface, schema (its writable fields only) or a like-class declaration are covered completely, permissions redefined for the package are substituted, 'zope.Public' means public, and nothing else is granted or shared between classes. A configuration that is malformed, contradicts itself, names an undefined permission or cannot be read completely raises an error, and if it fails before execution changes no protection.",
 ['inputs', 'histories', 'fault_sequences', 'crash_points'],
 'every set of directives in any order and nesting of includes, with configuration files that fail or end at any byte and with actions that fail at any point, and any interleaving of calls for distinct classes',
 'Tests configure a few fixed snippets; they do not combine directives, repeat declarations over histories, truncate files or fail actions in the middle.',
 ['protectclass.py', 'metaconfigure.py', 'metadirectives.py', 'zcml.py'],
 [('protectName, protectSetAttribute, protectLikeUnto', D + 'protectclass.py'), ('ClassDirective, protectModule, allow, require', D + 'metaconfigure.py'), ('Permission field, redefinePermission', D + 'zcml.py')],
 ['permissions demanded by the resulting proxies and checkers', 'configuration errors'])

prop('C12', 'Trusted and untrusted adapter factories keep adapters protected',
 "A trusted adapter factory gives its factory only unproxied objects and, if any of the adapted objects was security-proxied, hands out the adapter security-proxied under the checker registered for it (unless it needs none), otherwise bare; an untrusted one passes the objects on exactly as given. Locating variants make the adapter (or a location proxy around it when it has no location of its own) a child of the adapted object if it has no parent yet and never replace an existing parent, and any failure of the factory or of the placement reaches the caller with no unprotected adapter handed out.",
 ['inputs', 'histories', 'fault_sequences'],
 'every number and mix of proxied and bare objects, every kind of adapter (locatable or not, with or without parent, basic, already proxied), every failure point in the factory, the placement or the wrapping, nested and repeated adaptation',
 'Tests adapt a few fixed objects; the mixes, nestings and failures are not covered.',
 ['adapter.py'],
 [('LocatingTrustedAdapterFactory, TrustedAdapterFactory, LocatingUntrustedAdapterFactory', D + 'adapter.py')],
 ['arguments received by the factory', 'protection, identity and parent of the adapter'])

prop('C13', 'Diagnostic logging of checks never changes a decision',
 "With the checker diagnostics switched on, at any verbosity, every decision, exception type and result is the same as without them, and every refusal (and at higher verbosity every grant) is reported with the right verdict and name. If the diagnostics themselves fail - the log stream or the object's own representation raises - no refused operation is granted by that.",
 ['inputs', 'configurations', 'fault_sequences'],
 'every operation and policy at verbosity 0, 1 and 2 in both implementations, with the log stream or the representation of the object failing at any call',
 'Only one small group of tests runs with the watching checkers and a working stream.',
 ['checker.py'],
 [('CheckerLoggingMixin, WatchingChecker, WatchingCombinedChecker', D + 'checker.py')],
 ['decisions with and without diagnostics', 'lines written to the log stream'])

prop('C14', 'The C and the Python implementation behave alike',
 "Any program run against the compiled and against the pure Python implementation sees the same authorization decisions, the same questions put to the policy, the same effects on the objects, the same results with the same protection, and the same exception types, apart from the known differences that concern neither refused access nor the effects of granted access (exception instances without a registered checker stay bare only in C; failures while a permitted object describes itself; attributes of special methods the object lacks; special operations on objects lacking them).",
 ['programs', 'histories', 'fault_sequences', 'configurations'],
 'every sequence of operations, declarations, registry changes, interactions and failures, executed identically on both implementations',
 'The tests run the same fixed cases on both, but only those; the implementations can differ on any combination not sampled.',
 ['proxy.py', '_proxy.c', 'checker.py', '_zope_security_checker.c'],
 [('selection of the implementation', D + '_compat.py, ' + D + 'proxy.py, ' + D + 'checker.py')],
 ['traces of both implementations for the same seed'])

prop('C15', 'The compiled extensions never corrupt memory, crash or leak',
 "Whatever objects, names, operands, re-entrant callbacks, concurrent changes, failures and allocation failures untrusted and trusted code present to the proxies and checkers, the interpreter does not crash, no exception is lost or left pending, and repeating an operation any number of times keeps reference counts and memory constant; objects are released when their last proxy is.",
 ['inputs', 'histories', 'fault_sequences', 'schedules'],
 'every operation with every kind of operand and outcome, every failing allocation, every re-entrant mutation of checker, permissions, registry and interaction during a callback, any thread switch at a callback',
 'Tests run each slot once on the success path; reference counting and error paths fail only on repetition, on failing allocations or under mutation during a callback.',
 ['_proxy.c', '_zope_security_checker.c'],
 [('reference handling', D + '_proxy.c, ' + D + '_zope_security_checker.c')],
 ['process survival under a debugging allocator', 'reference counts and allocated blocks before and after'])

prop('C16', 'Granted operations are transparent',
 "An operation that is granted happens exactly once on the proxied object, with exactly the arguments given, and gives the caller the object's own result (protected as its kind requires) or its own exception; truth value, hash, length hint and comparison always give the object's own answer. A proxy therefore equals, hashes and orders as its object, and a program that is granted everything it does leaves the object in the same state as without proxies.",
 ['inputs', 'histories', 'fault_sequences', 'configurations'],
 'every operation and operand, every exception the object may raise at any point, any history of operations on a twin pair of one proxied and one bare object',
 'Tests compare single results on simple values; argument order, repeated evaluation and errors of the object inside an operation are not covered over histories.',
 ['proxy.py', '_proxy.c'],
 [('delegation in each slot', D + '_proxy.c; ' + D + 'proxy.py')],
 ['touch log, result and exception of the proxied object compared with a bare twin'])

prop('C17', 'Built-in containers, iterators, functions and basic values are read-only',
 "Under the default registrations, code holding a proxied list, dict, set, tuple, iterator, generator, function, method, class, module or decimal can use its reading operations and get protected elements, but can change none of them by any operation or chain of operations; immutable basic values (numbers, strings, dates and the like) come through unproxied. Modules and classes expose only what is declared for them or their always-readable names.",
 ['inputs', 'histories', 'schedules'],
 'every sequence of operations by untrusted code on nested built-in containers and everything reachable from them, interleaved with trusted code changing the containers',
 'Tests check fixed lists of names per type; that no chain of operations mutates or leaks is a statement over all histories.',
 ['checker.py'],
 [('_default_checkers, BasicTypes', D + 'checker.py')],
 ['contents of the containers compared with a model', 'protection of each element handed out'],
 state=[('_checkers', 'default registrations restored at clean-up')])

prop('C18', 'The public marker keeps its identity across storage and restarts',
 "The marker for public access stays one and the same object when it is security-proxied, copied, pickled and loaded again - in the same process, or in another one running either implementation - so declarations stored with it are public after a restart and all others are not. Stored data that is cut off at any point fails to load instead of loading as something else; no other proxied object becomes pickle-able unless its checker grants it.",
 ['crash_points', 'configurations', 'fault_sequences'],
 'every stored table of declarations, every pickle protocol, every cut of the stored data, restarts in every order of implementations',
 'One test pickles the marker once in one process and configuration.',
 ['checker.py', 'proxy.py', '_proxy.c'],
 [('Global, CheckerPublic', D + 'checker.py'), ('__reduce__ handling', D + 'proxy.py: ProxyPy.__getattribute__')],
 ['identity after loading', 'decisions made with loaded declarations'])

prop('C19', 'Permission listings and lookups are those registered at that moment',
 "At any moment, for any place (the current site, a context, or none), the listing of permissions and the permission vocabularies contain exactly the permissions registered there and in the places it builds on, with the public permission first in the vocabulary of ids (its value being the public marker) and left out of the listing; looking up an undefined permission raises an error, a defined one and the public marker never. Nothing is remembered between calls, what was handed out before stays as it was, and if the registry fails the failure is raised rather than an incomplete answer.",
 ['histories', 'fault_sequences', 'schedules', 'inputs'],
 'every history of registering and unregistering permissions of any kind in any arrangement of sites, by any threads, with the registry failing or an interrupt at any point',
 'The tests make a few registrations in one place and list them once.',
 ['permission.py', 'testing.py'],
 [('allPermissions, PermissionsVocabulary, PermissionIdsVocabulary, checkPermission', D + 'permission.py'),
  ('addCheckerPublic', D + 'testing.py')],
 ['terms, tokens and titles'])

prop('C20', 'Checker constructors declare exactly the names they are given',
 "A checker built from names, an interface or several specifications requires for each given name exactly the given permission for reading, for no other name any and nothing for writing, and conflicting permissions for one name raise a duplication error; if giving the names fails or is interrupted, that failure is raised and no checker results. The arguments are left as they are, later changes of them or of another checker's declarations do not change the checker, and building checkers in several threads does not mix them up.",
 ['inputs', 'histories', 'fault_sequences', 'schedules'],
 'every sequence of names, interfaces and permissions in every form (lists, sets, mappings, iterators and generators that fail at any point), every history of building checkers and changing the arguments, from any threads',
 'The tests sample a few specifications, each once.',
 ['checker.py'],
 [('NamesChecker, InterfaceChecker, MultiChecker', D + 'checker.py')],
 ['decisions of the checker for each name', 'permission_id of each name'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
