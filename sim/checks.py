"""Which simulations decide which property."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(os.path.dirname(HERE), 'known_findings.txt')


def known(prop):
    """Recorded, unrepaired findings (there is nothing for repaired ones)."""
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return []
    pre = 'finding: property=%s ' % prop
    return [line[len(pre):] for line in lines if line.startswith(pre)]


BOTH = ['c', 'pure']
MAIN = [('main', 10), ('attr', 5), ('un', 3), ('odd', 1), ('steal', .5),
        ('trust', 2)]

REAL_MW = [
    'zope.security.proxy and _proxy.c (built from the working tree)',
    'zope.security.checker and _zope_security_checker.c',
    'zope.security.management', 'zope.security.decorator',
    'zope.interface, zope.proxy and zope.location as installed']
STUB_MW = [
    'the security policy (answers from a table the run changes)',
    'the objects protected (probes that report every touch)',
    'application-written checkers, checker factories']
RULE_MW = (
    'Each run draws from its seed a small application (classes, objects with '
    'behaviours, plain, combined and application-written checkers, '
    'registrations, grants, 1-4 threads) and for each thread a program of '
    'untrusted operations on proxies mixed with trusted ones; the scheduler '
    'draws thread switches at callbacks and, in some runs, at every line or '
    'bytecode of zope.security; faults are raised from callbacks.')
ASSUME = [
    'sampling: a clean batch is evidence, not proof',
    'only the interpreter, platform and dependency versions of this sandbox',
]


def mwjob(tag, quick, profile, cfg=BOTH, thorough=60, scen='mw', chunk=400):
    return {'scen': scen, 'tag': tag, 'cfg': cfg, 'profile': profile,
            'quick': quick, 'thorough': quick * thorough, 'chunk': chunk}


def check(jobs, rule=RULE_MW, real=REAL_MW, stub=STUB_MW, assumptions=ASSUME,
          must_reach=(), note='', technique=''):
    return {'jobs': jobs, 'rule': rule, 'real': real, 'stub': stub,
            'assumptions': assumptions, 'must_reach': must_reach,
            'note': note, 'technique': technique}


CHECKS = {}

CHECKS['C01'] = check([
    mwjob('', 12000, {'mix': [('main', 10), ('attr', 6), ('un', 3),
                              ('odd', 1.5), ('steal', 1), ('trust', 1.5)],
                      'fault': [0, 0, .1], 'bomb': 1}),
    mwjob('deny', 4000, {'grant': [0.0, 0.1, 0.3],
                         'mix': [('main', 10), ('attr', 6), ('un', 2),
                                 ('odd', 2), ('steal', 1)]}),
])

CHECKS['C02'] = check([
    mwjob('', 11000, {'grant': [0.8, 0.95, 1.0], 'custom': [0.0, 0.2],
                      'mix': [('main', 10), ('attr', 8), ('un', 2),
                              ('odd', 1.5), ('trust', 1)],
                      'nops': [10, 25, 40]}),
])
CHECKS['C03'] = check([
    mwjob('', 12000, {'fault': [.3, .6, .9], 'grant': [.5, .8, .95],
                      'bomb': 1, 'mix': [('main', 10), ('attr', 6),
                                         ('un', 1), ('odd', 1),
                                         ('trust', 1.5)]}),
])
CHECKS['C03']['jobs'].append(mwjob('r', 3000, {}, scen='registry'))
CHECKS['C04'] = check([
    mwjob('', 12000, {'mix': [('main', 8), ('attr', 6), ('un', 1),
                              ('odd', .5), ('trust', 8)],
                      'custom': [0.0, 0.3]}),
])
CHECKS['C05'] = check([
    mwjob('', 9000, {'threads': [(2, 4), (3, 3), (4, 1)],
                     'custom': [0.0, 0.2], 'shared': 1,
                     'mix': [('main', 6), ('attr', 6), ('un', 1),
                             ('inter', 4), ('trust', 1)]}),
])
CHECKS['C10'] = check([
    mwjob('', 10000, {'mix': [('main', 2), ('attr', 6), ('trust', 3),
                              ('can', 8)], 'fault': [0, .2]}),
])
CHECKS['C16'] = check([
    mwjob('', 11000, {'grant': [1.0], 'custom': [0.0, 0.1],
                      'fault': [0, .3], 'plainexc': 1,
                      'mix': [('main', 10), ('attr', 6), ('un', 4),
                              ('odd', 2), ('trust', .3)]}),
])

REAL_LIFE = ['zope.security.management', 'zope.security.simplepolicies',
             'zope.security.testing', 'zope.security.proxy, '
             'zope.security.checker and their C extensions',
             'threading.local (real threads, one running at a time)']
RULE_LIFE = (
    'Each run draws policies, participations and for each of 1-4 threads a '
    'program of newInteraction, endInteraction, restoreInteraction, '
    'queryInteraction, checkPermission and the scoped form (nested, left '
    'normally, by an exception, by an interrupt); the scheduler draws thread '
    'switches at callbacks, lines or bytecodes; faults are raised from the '
    'policy, the participations or at any line of zope.security.')
CHECKS['C05']['jobs'].append(
    mwjob('life', 6000, {'threads': [(2, 3), (3, 3), (4, 2)]},
          scen='lifecycle'))
CHECKS['C06'] = check([
    mwjob('', 12000, {}, scen='lifecycle'),
], rule=RULE_LIFE, real=REAL_LIFE, stub=[
    'the security policy and the participations (answer or fail as drawn)'])
CHECKS['C07'] = check([
    mwjob('', 20000, {}, scen='policies'),
], rule='Each run draws participations with principals (the system user, '
   'others, proxies of it, failing ones) and a program of adding, removing '
   'and checking on interactions of both default policies, with failures '
   'and interrupts inside the calls; a set model is compared after each '
   'step.',
   real=['zope.security.simplepolicies', 'zope.security.management',
         'zope.security.checker (the public marker)'],
   stub=['the participations and principals'])
CHECKS['C08'] = check([
    mwjob('', 10000, {}, scen='registry'),
], rule='Each run draws a history of definitions, removals, lookups and '
   'wrappings for types, modules and instances, with checker factories that '
   'return, fail, or change the registry while it is consulted, plus '
   'interrupts and thread switches; a dictionary model is compared after '
   'each step.',
   real=['zope.security.checker', 'zope.security.proxy',
         'both C extensions'],
   stub=['checker factories and objects with checkers of their own'])
CHECKS['C09'] = check([
    mwjob('', 12000, {}, scen='combined'),
], rule='Each run draws trees of combined checkers over plain, custom and '
   'failing checkers and decorators around objects, and a program of '
   'operations, questions to the policy and changes of its answers; each '
   'answer, the questions asked and their order are compared with a model.',
   real=['zope.security.checker.CombinedChecker', 'zope.security.decorator',
         'zope.security.proxy', 'both C extensions',
         'zope.proxy, zope.location as installed'],
   stub=['the security policy', 'application-written checkers'])
CHECKS['C11'] = check([
    mwjob('', 4500, {}, scen='zcml', chunk=200),
], rule='Each run draws histories of configurations (files with includes, '
   'groups, permissions, class and module directives, redefined '
   'permissions, errors of many kinds) and direct declarations, loaded from '
   'an in-memory disk that can fail, end early or give short reads, with '
   'directives that fail while being executed and interrupts at any line; '
   'afterwards every name of every class and module is probed under drawn '
   'grants and compared with a model of the declarations.',
   real=['zope.security.metaconfigure, metadirectives, zcml, protectclass, '
         'permission, checker', 'zope.configuration, zope.interface, '
         'zope.schema, zope.component as installed'],
   stub=['the disk with the configuration files', 'the security policy'])
CHECKS['C12'] = check([
    mwjob('', 12000, {}, scen='adapters'),
], rule='Each run draws objects to adapt (bare, proxied, located, false, '
   'equal to anything), registrations, and a program of adapter factories '
   'of the three kinds that make new adapters of many kinds, hand out old '
   'ones, their arguments, proxies, location proxies or nothing, or fail; '
   'faults are raised by factories, parents, checkers and at any line; '
   'arguments, parent, identity, protection and checker of each result are '
   'compared with a model.',
   real=['zope.security.adapter, decorator, checker, proxy, both C '
         'extensions', 'zope.location, zope.proxy as installed'],
   stub=['factories, adapters and adapted objects'])
WATCHED = ['c-watch1', 'c-watch2', 'pure-watch1', 'pure-watch2']
CHECKS['C13'] = check([
    mwjob('', 5000, {'custom': [0.0, 0.3, .6], 'nops': [4, 10, 20],
                     'fault': [0, 0, .2]}, cfg=WATCHED, scen='watch'),
    mwjob('', 2500, {}, cfg=WATCHED, scen='watchmore'),
], rule=RULE_MW + ' It runs with the diagnostics of checks switched on at '
   'both verbosities; the lines they write are events of the run and are '
   'compared with the decisions, and the stream and the representations '
   'they read may fail. The worlds of combined checkers, registrations, '
   'adapters and interactions run with them, too. What differs from the '
   'model is reported if the same program without diagnostics, run in '
   'another process, does not differ as well.',
   real=REAL_MW + ['zope.security.checker.CheckerLoggingMixin'],
   stub=STUB_MW + ['the stream the diagnostics write to'])
CHECKS['C17'] = check([
    mwjob('', 12000, {}, scen='builtins'),
], rule='Each run draws values of all kinds that have a default '
   'registration (containers, nested, recursive, subclassed; iterators, '
   'generators, functions, methods, classes, modules, decimals, dates, ...) '
   'and a program of untrusted operations on proxies of them and on '
   'whatever these hand out (special methods, in-place operations, '
   'unbound methods of the types, the standard library as deputy), mixed '
   'with changes by the application, failures of the elements\' own '
   'methods and interrupts; after each operation the whole state of the '
   'values is compared, as is the protection of the result with the table '
   'of registrations and a granted reading with that of the bare value.',
   real=['zope.security.checker (default registrations) and proxy, both C '
         'extensions', 'zope.security._definitions'],
   stub=['element objects whose methods fail as drawn'])
CHECKS['C14'] = check([
    mwjob('', 16000, {}, cfg=['c'], scen='diff'),
], rule=RULE_MW + ' Each program, or one of the worlds of combined checkers, '
   'registrations, adapters, interactions, default policies and built-in '
   'values, runs in two processes, one with each implementation, each '
   'against its own reference model; the two models differ by the '
   'documented differences only. A deviation of one implementation that '
   'the other does not share is reported, as are different histories of '
   'the smaller worlds.',
   real=REAL_MW + ['zope.security.adapter, simplepolicies'])

CHECKS['C15'] = check([
    mwjob('', 20000, {}, cfg=['c'], scen='memory'),
    mwjob('nomem', 10000, {'nomem': .6}, cfg=['c'], scen='memory'),
    mwjob('dbg', 4000, {}, cfg=['c-dbg'], scen='memory'),
    mwjob('asan', 5000, {}, cfg=['c-asan'], scen='memory', chunk=250),
    mwjob('mw-asan', 1600, {'bomb': 1, 'fault': [.3, .6]}, cfg=['c-asan'],
          chunk=200),
    mwjob('builtins-asan', 1600, {}, cfg=['c-asan'], scen='builtins',
          chunk=200),
    mwjob('combined-asan', 1600, {}, cfg=['c-asan'], scen='combined',
          chunk=200),
], rule='Each run draws objects, checkers, registrations and a program of '
   'operations on proxies and checkers whose callbacks drop what is in use, '
   'empty, refill or re-initialize the tables being read, change the '
   'registry, collect garbage, come back, return anything, or fail; and '
   'sweeps in which each single allocation of an operation fails in turn, '
   'before or after its callbacks. The program is repeated: all objects are '
   'to be gone after each repetition, and the reference counts of everything '
   'shared and the number of memory blocks are to stay the same. No crash, '
   'no SystemError, no error left pending; an object whose checker grants '
   'nothing stays untouched. Part of the runs have the allocator\'s debug '
   'checks on, or extensions built with the address and undefined behaviour '
   'sanitizers, as do runs of other worlds.',
   real=['_proxy.c, _zope_security_checker.c (built from the working tree, '
         'with and without sanitizers)', 'zope.security.checker, proxy',
         'CPython\'s reference counting and garbage collector'],
   stub=['the objects protected, application-written checkers, the policy',
         'the allocator (fails at a drawn allocation)'],
   technique='deterministic simulation with fault injection: seeded search '
   'over programs, re-entrant callbacks and failing allocations, with '
   'conservation of references and memory, and sanitizers, as oracle')
CHECKS['C18'] = check([
    mwjob('', 5500, {}, scen='persist', chunk=200),
], rule='Each run draws the lives of an application that keeps tables of '
   'declarations in stored data (several shapes of classes, shared and '
   'cyclic structures, the marker as value, key and alone) and programs of '
   'making, saving (every protocol, both picklers), loading, copying and '
   'deciding with them; the store may be full, tear a write, lose the tail, '
   'or fail to read, interrupts arrive at any line of zope.security, and '
   'after each crash only the stored data goes on, in a process of either '
   'implementation. What is loaded is compared with what was saved, each '
   'decision with the model; proxies of other objects are pickled, copied '
   'and asked for their state with drawn grants.',
   real=['zope.security.checker (Global, CheckerPublic, checker '
         'constructors), proxy, management, simplepolicies, both C '
         'extensions', 'pickle (C and Python), copy'],
   stub=['the store (an in-memory disk with faults)', 'the security policy',
         'the application objects'])
CHECKS['C19'] = check([
    mwjob('', 6000, {}, scen='perms', chunk=200),
], rule='Each run draws an arrangement of sites, permissions of several '
   'kinds and for each of 1-3 threads a program of registering, '
   'unregistering, entering sites, listing (at once or step by step with '
   'changes in between), building vocabularies and looking up; the registry '
   'fails at drawn calls, interrupts arrive and threads switch at any line '
   'of zope.security; each answer is compared with a model of what was '
   'registered while it was asked.',
   real=['zope.security.permission, testing', 'zope.component, '
         'zope.interface.registry, zope.schema.vocabulary as installed'],
   stub=['the contexts and sites'])
CHECKS['C20'] = check([
    mwjob('', 5000, {}, scen='build', chunk=200),
], rule='Each run draws for each of 1-3 threads a program of building '
   'checkers from names, interfaces, mappings and specifications in many '
   'forms, some of which fail or are interrupted on the way, of changing the '
   'arguments afterwards, of declaring more for one checker, and of using '
   'them; after each step the decisions for every name, for reading, '
   'operating and writing, are compared with a model.',
   real=['zope.security.checker (constructors and Checker), proxy, '
         'C extensions'],
   stub=['the security policy', 'iterators and mappings given as arguments'])

TECHNIQUE = ('deterministic simulation with fault injection: seeded search '
             'over programs, thread schedules and faults against an '
             'executable reference model')
NOTE = ('Seeded sampling of simulated runs of the real code in both '
        'implementations; a clean batch is evidence, not proof.')
NOT_APPLICABLE = {}
