"""writes /verif/MANIFEST.json from the property modules that exist"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'N01': 'A statement about statistical limits of estimators as the sample grows: a pure function of the input distribution, with no '
           'schedule, fault, clock or history in it, so there is nothing for a simulator to decide.',
    'N02': 'A pure function of one table (definitions of cumulative lift, gain, Qini); no schedule, clock, fault or shared state. Its '
           'history- and generator-dependent side is covered by C03, C06 and C07.',
    'N03': 'Optimality of a split over one fixed table is a pure function of the input; no schedule, fault or history decides it.',
    'N04': 'Arithmetic of one fitted structural model on one row; a pure function of model and row. Its stateful side is in C11.',
    'N05': 'Text and pictures are a pure function of one fitted tree; no schedule, fault or clock. Their side effects are in C07.',
}
NOTE = ('Seeded sampling of simulated executions of the real code, each repeatable from its seed and choice list: a clean batch is evidence, '
        'not proof. ')
EXTRA = {
    'C01': 'Interleavings switch at Python source lines of ylearn; compiled tree code runs atomically. Trusts scikit-learn, numpy and the simulated joblib back end.',
    'C02': 'Workers, order, batching, pickle boundary and failures are simulated; joblib.Parallel and the learners are real.',
    'C03': 'Trusts that user models are deterministic; other string hash seeds are two further interpreter processes.',
    'C04': 'Small graphs (up to 7 nodes); own reference implementation of d-separation, adjustment criteria and identifiability.',
    'C05': 'Faults at model calls, at executed call lines, at workers and through damaged data; the reference is a separately built object.',
    'C06': 'The reference is a new object built with the same settings and fitted once.',
    'C07': 'The reference is a newly fitted object asked one query only; threads switch at ylearn source lines.',
    'C08': 'Arguments are compared by value, dtype, label and order before and after each call.',
    'C09': 'Recording nuisance models give the exact history of the cross-fitting; residuals are recomputed independently.',
    'C10': 'Restoring processes run the same library versions.',
    'C11': 'Trusts pyro and torch; the reference is the same operation sequence on one network alone.',
    'C12': 'The clock is a simulated one; threads switch at single byte codes.',
    'C13': 'Small data, fast estimators; the reference is a new Why object.',
    'C14': 'Small graphs; threads switch at ylearn source lines.',
    'C15': 'Training faults are injected at executed call lines and into tensors; small data sets.',
    'C16': 'The reference is one direct fit.',
    'C17': 'Row independence is judged against single-row answers of a separately fitted transformer.',
    'C18': 'Rounding (relative 1e-6, DeepIV 1e-3) is not a difference; estimators whose answer is relative to the given rows (bounds) are left out of the row part.',
}


def main():
    checks, na = [], []
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)['id']
        if os.path.exists(os.path.join(V, 'props', p.lower() + '.py')):
            checks.append(dict(property=p, quick_cmd=f'./check.sh {p} --tier quick', thorough_cmd=f'./check.sh {p} --tier thorough',
                               evidence_file=f'evidence/{p}.json', technique='deterministic simulation with fault injection',
                               level='exploration', level_note=NOTE + EXTRA.get(p, '')))
        else:
            na.append(dict(property=p, reason=NA.get(p, 'No check built yet.')))
    m = dict(version=1, setup_cmd='./check.sh --build',
             hooks=dict(guard='none', enable='No hooks: the seams are the joblib back end registry, threading locks, sys.settrace, '
                                             'module clocks and user-supplied models, all replaced from /verif.', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='All checks share dst/ (simulator kernel, scheduler, simulated joblib workers, crash points, peers, runner). '
                   'VERIF_SEED decides every choice. See DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
