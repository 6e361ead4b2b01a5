#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mech(*ms):
    return [{'name': n, 'where': w} for n, w in ms]

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note))

LAZY = ['src/pigro/lazy.h', 'src/pigro/bind_tuple.h', 'src/pigro/compressed_tuple.h', 'src/pigro/regular_void.h',
        'src/pigro/tuple_algorithms.h', 'src/pigro/recursive.h', 'src/pigro/overload.h']
LAZY_T = 'TLA+ (TLC): Lazy.tla model checked and refined by LazyImpl.tla; generated scripts run on real programs; recorded traces validated against Lazy.tla'
LAZY_N = ('The specification is checked exhaustively within small bounds (up to 3 objects, 2 variables, 2 values); the real code is bound to it by '
          'trace validation of a transition cover of the specification plus random histories on a fixed and a seed-drawn set of programs '
          '(graphs, value types, kinds of functions). Trusts TLC, g++-13 and the recording harness. Bounded: other programs and longer histories are not covered.')
LAZY_W = ('The stable tests do not even compile lazy.h, and tests/lazy.test.cpp samples a few calls on a handful of graphs of int; the statement is about every '
          'graph, value type and interleaving of changes and calls.')

prop('L01', 'A lazy call returns its function applied to the current dependency values',
     'Every call of a lazy object that returns gives the value its function has for the values its dependencies have in that call, passed in the order '
     'in which the dependencies were given: a plain function contributes what it returns in that call, a lazy dependency its own up-to-date value, anything '
     'else the value it had when the lazy object was created. This holds for any number, nesting and mixture of dependencies, any copyable and comparable '
     'value type (tuples, pairs and optionals included), and however variables change between calls or in the middle of them.',
     ['programs', 'histories', 'inputs', 'schedules'],
     'All dependency graphs, value types, kinds of callables and sequences of changes and calls.', LAZY_W, LAZY,
     mech(('change detection and caching', 'lazy.h: detail::lazy_core'), ('classification of dependencies', 'lazy.h: ensure_lazy'),
          ('arguments from dependency results', 'tuple_algorithms.h: transform')),
     ['arguments the user function is called with', 'value returned by the call'], LAZY_T, LAZY_N)
prop('L02', 'Functions are evaluated again only when a dependency value really changed',
     'In a call of a lazy object, the function of each lazy object involved runs at most once, and only if it has not produced a value yet or if some value '
     'its dependencies have in this call compares unequal to the one it was last evaluated with. In particular a call after which nothing changed runs no '
     'lazy function at all, and a change further down that leaves a dependency value equal does not propagate upwards (calls cut short by an exception aside).',
     ['programs', 'histories', 'inputs', 'schedules'],
     'All dependency graphs, value types, kinds of callables and sequences of changes and calls.', LAZY_W, LAZY,
     mech(('is_changed flags and cached value', 'lazy.h: detail::lazy_core'), ('any dependency changed', 'tuple_algorithms.h: any')),
     ['invocations of the user functions'], LAZY_T, LAZY_N)
prop('L03', 'Creating or copying runs nothing; a call reads each plain function once',
     'Creating, copying, moving or destroying a lazy object calls none of the functions it was given. Every call of it that returns calls each plain function '
     'among its dependencies, direct or nested, exactly once, and nothing outside a call does.',
     ['programs', 'histories'],
     'All dependency graphs and sequences of object creation, copying, destruction and calls.', LAZY_W, LAZY,
     mech(('plain functions are polled', 'lazy.h: ensure_lazy'), ('deferred evaluation', 'lazy.h: detail::lazy_core')),
     ['invocations of the plain functions'], LAZY_T, LAZY_N)
prop('L04', 'Values are compared only when they were just computed again, and only once',
     'A lazy object compares two values of a function (its own or that of a dependency) only in a call in which that function ran and had run before, and then '
     'at most once. Values of functions that did not run, first values, and plain value dependencies are never compared.',
     ['programs', 'histories'],
     'All dependency graphs of values with user-defined comparison, and sequences of changes and calls.', LAZY_W, LAZY,
     mech(('comparison of result and cache', 'lazy.h: detail::lazy_core')),
     ['invocations of operator== / operator!= of the value types'], LAZY_T, LAZY_N)
prop('L05', 'Copies of lazy objects, and lazy dependencies, are independent snapshots',
     'A copy of a lazy object starts with the cached values and function states the original has at that moment, and from then on neither is influenced by '
     'calls, copies or destruction of the other; a moved-to object continues where the original was. The same holds for a lazy object passed as a dependency: '
     'the new object owns a snapshot of it. Different objects, also copies of one another, can therefore be used on different threads at the same time.',
     ['programs', 'histories', 'schedules'],
     'All graphs and interleavings of creation, copying, moving, destruction, changes and calls on several objects, on one thread or on several.', LAZY_W, LAZY,
     mech(('functions, dependencies and cache are stored by value', 'lazy.h: detail::lazy_core, unwrap_value'), ('value storage', 'compressed_tuple.h: stateful_element')),
     ['results, evaluations and function state per object'], LAZY_T, LAZY_N)
prop('L06', 'Exceptions reach the caller and never leave a stale value behind',
     'If a function, a plain function dependency, or the copying or comparison of a value throws during a call, the caller receives that exception. Whatever '
     'call threw at whatever point, every later call of the object that returns gives the value its function has for the values its dependencies have in that later call.',
     ['fault_sequences', 'histories', 'programs'],
     'All points at which user code called in a call can throw, in all graphs and histories.', LAZY_W, LAZY,
     mech(('cache is dropped on unwinding', 'lazy.h: reset_on_exception')),
     ['exceptions, results and evaluations'], LAZY_T, LAZY_N)
prop('L07', 'Lazy void functions run once and then only when a dependency changed',
     'A lazy object around a function that returns void returns void, runs the function in its first call, and later runs it exactly in those calls in which '
     'some dependency value differs from the one the function was last run with, passing the current values. It can itself be a dependency of other lazy objects.',
     ['programs', 'histories', 'inputs'],
     'All graphs with void functions and sequences of changes and calls.', LAZY_W, LAZY,
     mech(('void as a value', 'regular_void.h: regularized_void, unregularized_void, optional<regular_void>')),
     ['invocations and arguments of the void functions, return type'], LAZY_T, LAZY_N)
prop('L08', 'State that functions and dependencies keep themselves survives between calls',
     'A function or plain function dependency that modifies its own state when it is invoked (a mutable lambda, a functor with members) finds, at each '
     'invocation, the state its previous invocation in the same lazy object left; a copied lazy object continues with copies of those states.',
     ['programs', 'histories'],
     'All kinds of stateful callables in all graphs and histories, exceptions and copies included.', LAZY_W, LAZY,
     mech(('functions are invoked in place', 'bind_tuple.h: front_tuple_invoker, back_tuple_invoker; regular_void.h; lazy.h')),
     ['own state of each callable, as it sees it'], LAZY_T, LAZY_N)

exec(open(os.path.join(V, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else None

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'python3 tools/setup.py',
        'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public interface of the headers only', 'source_commits': []},
        'checks': [{
            'property': p['id'],
            'quick_cmd': f'python3 check.py {p["id"]} quick',
            'thorough_cmd': f'python3 check.py {p["id"]} thorough',
            'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in P],
        'not_applicable': [],
    }, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
