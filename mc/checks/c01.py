"""C01: the result equals sequential evaluation, under every completion order."""
import itertools

from .. import sizes
from ..core import Violation
from ..enginex import Run
from ..family import EDGES, G1, G1N, SAME, Trees, backwards, g1, plain
from ..sched import explore
from ..tower import Tower, TowerRun, tower_cases
from ..world import World

PROPERTY = 'C01'
TECHNIQUE = 'stateless exploration of loader-completion orders on the real engine (controlled executor), against a reference evaluator'
LEVEL_NOTE = 'Every query up to the item bound over the graph family x every data variant, and for each every order and grouping of completions (deviation-bounded where capped). Trusts the reference evaluator; loaders are deterministic stubs.'
NOTE = {
    'alphabet': 'graph with 3 nodes, 9 fields over 6 loaders, 9 links (one/maybe/many, with/without requires, '
                'cyclic, shared targets); every selection of distinct items; and three graphs on top of each other '
                '(expression fields over expression fields, links requiring expression fields)',
    'choices': 'at every wait of the engine: every non-empty ordered subset of the outstanding calls finishes',
    'oracle': 'recursive evaluation of the graph description, independent of hiku',
}


def bounds(tier):
    return {'items_per_query': 4 if tier == 'quick' else 5, 'depth': 3 if tier == 'quick' else 4,
            'full_menu_up_to_outstanding': 3 if tier == 'quick' else 4,
            'max_executions_per_case': 400 if tier == 'quick' else 6000,
            'max_executions_nested': 25 if tier == 'quick' else 400}


def cases(tier):
    b = bounds(tier)
    for c in sizes.cases(tier):
        yield dict(c, b=[2, 4 if tier == 'quick' or c['n'] > 65 else 30])
    for c in tower_cases(tier):
        for eager in (True, False):
            yield dict(c, eager=eager, b=b['max_executions_nested'])
    for spec, names in ((G1, EDGES), (G1N, SAME)):
        for items, edges in itertools.product(Trees(spec).upto(b['items_per_query'], b['depth']), names):
            for eager in (True, False):
                yield {'edges': edges, 'items': plain(items), 'eager': eager, 'b': [
                    b['full_menu_up_to_outstanding'], b['max_executions_per_case']]}
    # queries built by hand are executed in any order of selections
    for spec, names in ((G1, EDGES), (G1N, SAME)):
        for items, edges in itertools.product(Trees(spec).upto(3 if tier == 'quick' else 4, b['depth']), names):
            yield {'edges': edges, 'items': backwards(plain(items)), 'raw': True, 'b': [3, 60]}


def run_tower(case, rec):
    items = case['items']
    expected = Tower(case['tower']).evaluate(items)

    def one(ch):
        r = TowerRun(case['tower'], items, ch, eager=case['eager'])
        got = r.ok()
        if got != expected:
            raise Violation('result over nested graphs differs from sequential evaluation', expected=expected,
                            got=got)
        rec.outcome([f.seq for k, f in r.world.events if k == 'done'])
        return got
    explore(one, rec, max_execs=case['b'])


def run(case, rec):
    if 'tower' in case:
        return run_tower(case, rec)
    spec, items = sizes.make(case) if 'shape' in case else (g1(case['edges']), case['items'])
    expected = World(spec).evaluate(items)

    def one(ch):
        r = Run(spec, items, ch, eager=case.get('eager', True), max_full=case['b'][0], merged=not case.get('raw')).ok()
        got = r.data()
        if got != expected:
            raise Violation('result differs from sequential evaluation', expected=expected, got=got)
        plain_ = r.denormalized()
        if plain_ != expected:
            raise Violation('denormalized result differs from sequential evaluation', expected=expected,
                            got=plain_)
        rec.outcome([f.seq for k, f in r.world.events if k == 'done'])
        return got
    explore(one, rec, max_execs=case['b'][1])
