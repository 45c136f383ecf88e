"""C01: the point type converter, message in, message out (Hypothesis)."""
import array
import copy
import hashlib
import json
import math
import multiprocessing
import os
import random
import struct
import sys
import time
import types

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [os.path.join(HERE, 'stubs'), os.path.join(REPO, 'point_type_converter')]

RULE = ('random layouts (field order, offsets with gaps, padding, extra and multi-element fields, integer and floating types, both byte orders, '
        'organised or not, rows padded or not) of 0..12 points, and of 5000..140000 points, with special values, several clouds through one node; non-trivial: at least two points left, and '
        'fields out of the usual order, an extra field or a dropped point')
ASSUMPTIONS = ['rclpy and sensor_msgs are in-process stand-ins', 'fields do not overlap; the ring number fits in 16 bits and is an '
               'integer; coordinates and intensity are representable in single precision']
SIZE = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 4, 8: 8}
CHAR = {1: 'b', 2: 'B', 3: 'h', 4: 'H', 5: 'i', 6: 'I', 7: 'f', 8: 'd'}
LIMITS = {1: (-128, 127), 2: (0, 255), 3: (-32768, 32767), 4: (0, 65535), 5: (-2**31, 2**31 - 1), 6: (0, 2**32 - 1)}


class Broken(Exception):
    pass


def require(ok, msg):
    if not ok:
        raise Broken(msg)


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def message(cloud):
    """A message from the description of a cloud."""
    from sensor_msgs.msg import PointCloud2, PointField
    m = PointCloud2()
    m.header = types.SimpleNamespace(stamp=types.SimpleNamespace(sec=cloud['sec'], nanosec=cloud['nanosec']), frame_id=cloud['frame'])
    m.fields = [PointField(name=n, offset=o, datatype=t, count=k) for n, o, t, k in cloud['fields']]
    m.is_bigendian = cloud['big']
    m.point_step = cloud['step']
    m.height, m.width = cloud['height'], cloud['width']
    m.row_step = m.width * m.point_step + cloud.get('pad', 0)
    m.is_dense = cloud['dense']
    end = '>' if cloud['big'] else '<'
    data = bytearray()
    for p in cloud['points']:
        b = bytearray([cloud['filler']]) * m.point_step
        for (n, o, t, k), v in zip(cloud['fields'], p):
            for i in range(k):
                # the further elements of a field differ from the first one
                struct.pack_into(end + CHAR[t], b, o + i * SIZE[t], v if i == 0 else (1 if t < 7 else 1.5))
        data += b
        if cloud.get('pad') and (len(data) + cloud['pad']) % m.row_step == 0:
            data += bytearray([cloud['filler']]) * cloud['pad']
    m.data = bytes(data) if cloud['as_bytes'] else array.array('B', bytes(data))
    return m


def check_output(cloud, m, out):
    at = {n: i for i, (n, o, t, k) in enumerate(cloud['fields'])}
    want = []
    for p in cloud['points']:
        v = [p[at[n]] for n in ('x', 'y', 'z', 'intensity', 'ring')]
        if v[0] == 0 and v[1] == 0 and v[2] == 0:
            continue
        want.append([f32(float(e)) for e in v[:4]] + [v[4]])
    require(out.header.frame_id == cloud['frame'] and out.header.stamp.sec == cloud['sec'] and out.header.stamp.nanosec == cloud['nanosec'],
            'another header')
    require(out.height * out.width == len(want), '%d x %d points, %d expected' % (out.height, out.width, len(want)))
    require(out.row_step == out.width * out.point_step, 'row step %d for %d points of %d bytes' % (out.row_step, out.width, out.point_step))
    require(len(out.data) == out.row_step * out.height, '%d bytes of data in rows of %d' % (len(out.data), out.row_step))
    fields = {f.name: f for f in out.fields}
    for n, t in (('x', 7), ('y', 7), ('z', 7), ('intensity', 7), ('ring', 4)):
        require(n in fields, 'no field ' + n)
        require(fields[n].datatype == t and fields[n].count == 1, 'field %s has type %d and %d elements' % (n, fields[n].datatype, fields[n].count))
    used = sorted((f.offset, f.offset + SIZE[f.datatype] * f.count) for f in out.fields)
    require(all(a[1] <= b[0] for a, b in zip(used, used[1:])) and (not used or used[-1][1] <= out.point_step), 'fields overlap or exceed the point')
    # what the subscribers of this package read: single precision x, y, z at 0, 4, 8, intensity at 16, ring at 20
    require([fields[n].offset for n in ('x', 'y', 'z', 'intensity', 'ring')] == [0, 4, 8, 16, 20] and out.point_step == 32, 'another layout')
    end = '>' if out.is_bigendian else '<'
    data = bytes(bytearray(out.data))
    for i, w in enumerate(want):
        for n, v in zip(('x', 'y', 'z', 'intensity', 'ring'), w):
            f = fields[n]
            got = struct.unpack_from(end + CHAR[f.datatype], data, i * out.point_step + f.offset)[0]
            require(same(got, v), 'point %d of %d: %s is %r instead of %r' % (i, len(want), n, got, v))
    return len(want)


def run_history(clouds):
    import rclpy
    from point_type_converter import convert
    rclpy.state.topics.clear()
    node = convert.PointTypeConverter()
    out = []
    rclpy.state.topics.setdefault('/points_converted', []).append(out.append)
    left = 0
    for i, c in enumerate(clouds):
        m = message(c)
        before = copy.deepcopy(m)
        try:
            for f in list(rclpy.state.topics['/points_raw']):
                f(m)
        except Broken:
            raise
        except Exception as e:
            raise Broken('cloud %d: %s: %s' % (i, type(e).__name__, e))
        require(len(out) == i + 1, '%d clouds published for %d received' % (len(out), i + 1))
        left = max(left, check_output(c, m, out[i]))
        require(m.fields == before.fields and bytes(bytearray(m.data)) == bytes(bytearray(before.data)) and m.point_step == before.point_step and
                m.width == before.width and m.height == before.height and m.row_step == before.row_step and m.is_bigendian == before.is_bigendian and
                m.is_dense == before.is_dense and m.header == before.header, 'the input message was modified')
        if i % 2:
            left = max(left, check_output(clouds[i - 1], None, out[i - 1]))
    node.destroy_node()
    return left


def strategy():
    from hypothesis import strategies as st
    special = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-30, 1e30, float('inf'), float('nan')]
    flt = st.one_of(st.sampled_from(special), st.integers(-4, 4).map(float), st.floats(width=32))

    @st.composite
    def cloud(draw):
        usual = draw(st.booleans())
        types_ = {'x': 7, 'y': 7, 'z': 7, 'intensity': 7, 'ring': 4}
        if not usual:
            for n in 'xyz':
                types_[n] = draw(st.sampled_from([7, 7, 7, 8, 3, 5]))
            types_['intensity'] = draw(st.sampled_from([7, 7, 2, 4, 1, 8]))
            types_['ring'] = draw(st.sampled_from([4, 4, 2, 6, 5]))
        names = ['x', 'y', 'z', 'intensity', 'ring']
        counts = {}
        for n in draw(st.lists(st.sampled_from(['t', 'reflectivity', 'noise', 'range', 'padding', 'time', 'xx', 'azimuth']), max_size=4, unique=True)):
            names.append(n)
            types_[n] = draw(st.integers(1, 8))
            counts[n] = draw(st.sampled_from([1, 1, 1, 2, 3]))
        place = names if usual and len(names) == 5 and draw(st.booleans()) else draw(st.permutations(names))     # order of the offsets
        offset, at = 0, {}
        for n in place:
            offset += draw(st.sampled_from([0, 0, 0, 1, 2, 4]))
            at[n] = offset
            offset += SIZE[types_[n]] * counts.get(n, 1)
        step = offset + draw(st.sampled_from([0, 0, 1, 2, 10]))
        listed = place if draw(st.booleans()) else draw(st.permutations(place))                                 # order in the message
        fields = [[n, at[n], types_[n], counts.get(n, 1)] for n in listed]

        def value(n, t):
            if t == 7:
                return draw(flt)
            if t == 8:
                return draw(flt) if n in ('x', 'y', 'z', 'intensity') else draw(st.floats())
            lo, hi = LIMITS[t]
            if n == 'ring':
                lo, hi = max(lo, 0), min(hi, 65535)
            if n in ('x', 'y', 'z', 'intensity'):
                lo, hi = max(lo, -2**24), min(hi, 2**24)
            return draw(st.one_of(st.integers(max(lo, -2), min(hi, 2)), st.integers(lo, hi)))
        height = draw(st.sampled_from([1, 1, 2, 3]))
        width = draw(st.integers(0, 12 // height))
        points = []
        for _ in range(height * width):
            if draw(st.integers(0, 4)) == 4:
                points.append([0 if n in 'xyz' else value(n, t) for n, o, t, k in fields])
            else:
                points.append([value(n, t) for n, o, t, k in fields])
        return dict(fields=fields, step=step, height=height, width=width, points=points, big=draw(st.booleans()), dense=draw(st.booleans()),
                    filler=draw(st.sampled_from([0, 255, 63])), as_bytes=draw(st.booleans()), sec=draw(st.integers(0, 2**31 - 1)),
                    nanosec=draw(st.integers(0, 10**9 - 1)), frame=draw(st.sampled_from(['lidar', '', 'a/b'])),
                    pad=draw(st.sampled_from([0, 0, 0, 1, 4, step, 2 * step])))
    return st.lists(cloud(), min_size=1, max_size=3)


def large_strategy():
    from hypothesis import strategies as st

    # a full-size cloud: a few points repeated in random order
    return st.tuples(strategy(), st.integers(5000, 140000), st.integers(0, 2**32))


def run_large(case):
    clouds, n, seed_ = case
    cloud = dict(clouds[0])
    if not cloud['points']:
        return 0
    n -= n % cloud['height']
    r = random.Random(seed_)
    # the ring takes other values from point to point, so that no two stretches of the cloud are alike
    ring = [f[0] for f in cloud['fields']].index('ring')
    top = min(65535, LIMITS[cloud['fields'][ring][2]][1])
    cloud['points'] = [p[:ring] + [r.randint(0, top)] + p[ring + 1:] for p in r.choices(cloud['points'], k=n)]
    cloud['width'] = n // cloud['height']
    return run_history([cloud])


def helper_strategy():
    from hypothesis import strategies as st

    @st.composite
    def packed(draw):
        fields, offset = [], 0
        for i in range(draw(st.integers(1, 6))):
            offset += draw(st.sampled_from([0, 0, 1, 3]))
            t = draw(st.integers(1, 8))
            fields.append(['f%d' % i, offset, t, 1])
            offset += SIZE[t]
        step = offset + draw(st.sampled_from([0, 1, 7]))
        points = []
        for _ in range(draw(st.integers(0, 6))):
            points.append([draw(st.floats(width=32)) if t == 7 else draw(st.floats()) if t == 8 else draw(st.integers(*LIMITS[t])) for n, o, t, k in fields])
        return dict(fields=fields, step=step, points=points, big=draw(st.booleans()))
    return packed()


def run_helpers(case):
    from sensor_msgs.msg import PointField
    from point_type_converter import convert
    fields = [PointField(name=n, offset=o, datatype=t, count=k) for n, o, t, k in case['fields']]
    data = convert.pack_point_data([tuple(p) for p in case['points']], fields, case['step'], case['big'])
    require(len(data) == len(case['points']) * case['step'], '%d bytes for %d points of %d' % (len(data), len(case['points']), case['step']))
    end = '>' if case['big'] else '<'
    for i, p in enumerate(case['points']):
        for (n, o, t, k), v in zip(case['fields'], p):
            got = struct.unpack_from(end + CHAR[t], data, i * case['step'] + o)[0]
            require(same(got, v), 'packed point %d: %s is %r instead of %r' % (i, n, got, v))
    back = convert.unpack_point_bytes(data, fields, case['step'], case['big'])
    require(len(back) == len(case['points']), '%d points unpacked from %d' % (len(back), len(case['points'])))
    for i, (p, q) in enumerate(zip(case['points'], back)):
        require(len(p) == len(q) and all(same(a, b) for a, b in zip(p, q)), 'point %d: %r became %r' % (i, p, q))
    return len(case['points'])


def run_main(clouds):
    """The same through the executable."""
    import rclpy
    from point_type_converter import convert
    rclpy.state.topics.clear()
    out = []
    rclpy.state.topics.setdefault('/points_converted', []).append(out.append)

    def hook(node):
        for c in clouds:
            for f in list(rclpy.state.topics['/points_raw']):
                f(message(c))
    rclpy.state.spin_hook = hook
    convert.main()
    rclpy.state.spin_hook = None
    require(len(out) == len(clouds), '%d clouds published for %d received' % (len(out), len(clouds)))
    return max(check_output(c, None, o) for c, o in zip(clouds, out))


RUNNERS = dict(history=run_history, large=run_large, helpers=run_helpers, main=run_main)


def nontrivial(kind, case, left):
    if kind == 'helpers':
        return left > 1
    return left > 1 and any(
        len(c['fields']) > 5 or [f[0] for f in sorted(c['fields'], key=lambda f: f[1])] != ['x', 'y', 'z', 'intensity', 'ring'] for c in clouds_of(case))


def clouds_of(case):
    return case[0] if isinstance(case[0], list) else case


def shard(args):
    seed_, kind, examples = args
    import warnings
    warnings.simplefilter('ignore')
    from hypothesis import HealthCheck, Phase, given, seed, settings
    stats = dict(kind=kind, evaluations=0, hashes=set(), samples=[], failure=None)

    @seed(seed_)
    @settings(max_examples=examples, database=None, deadline=None, suppress_health_check=list(HealthCheck), print_blob=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
    @given(helper_strategy() if kind == 'helpers' else large_strategy() if kind == 'large' else strategy())
    def test(case):
        stats['evaluations'] += 1
        try:
            left = RUNNERS[kind](case)
        except Broken as e:
            stats['failure'] = dict(kind=kind, case=case, message=str(e))
            raise
        except Exception as e:
            stats['failure'] = dict(kind=kind, case=case, message='%s: %s' % (type(e).__name__, e))
            raise
        if nontrivial(kind, case, left):
            text = json.dumps(case, sort_keys=True)
            stats['hashes'].add(hashlib.sha1(text.encode()).hexdigest()[:16])
            if len(stats['samples']) < 2 and len(text) < 1200:
                stats['samples'].append(kind + ': ' + text)
    try:
        test()
    except Exception as e:
        if stats['failure'] is None:
            stats['error'] = '%s: %s' % (type(e).__name__, e)
        # a failure that does not repeat is reported as such by Hypothesis
        elif 'Flaky' in type(e).__name__:
            stats['error'] = 'not reproducible: ' + stats['failure']['message']
            stats['failure'] = None
    return stats


def main():
    pid, tier, seed_ = sys.argv[1], sys.argv[2], int(sys.argv[3])
    t0 = time.time()
    if len(sys.argv) > 4:
        f = json.load(open(sys.argv[4]))
        try:
            RUNNERS[f['kind']](f['case'])
        except Exception as e:
            print('reproduced: %s' % e)
            sys.exit(1)
        sys.exit(0)
    n = 700 if tier == 'quick' else 14000
    jobs = [(seed_ * 100003 + i, kind, int(n * w)) for i in range(8) for kind, w in (('history', 1.), ('helpers', 1.), ('main', 0.2), ('large', 0.008))]
    with multiprocessing.Pool(min(8, os.cpu_count() or 8)) as pool:
        results = pool.map(shard, jobs, chunksize=1)
    errors = [r['error'] for r in results if r.get('error')]
    hashes = set().union(*[r['hashes'] for r in results])
    per = {}
    for r in results:
        per.setdefault(r['kind'], dict(evaluations=0, nontrivial=0))
        per[r['kind']]['evaluations'] += r['evaluations']
        per[r['kind']]['nontrivial'] += len(r['hashes'])
    samples = [s for r in results for s in r['samples']][:20] or ['(none)']
    failures = [r['failure'] for r in results if r['failure']]
    failures.sort(key=lambda f: len(json.dumps(f['case'])))
    evidence = dict(property=pid, tier=tier, seed=seed_, level='exploration',
                    coverage=dict(evaluations=sum(r['evaluations'] for r in results), distinct_nontrivial=len(hashes), rule=RULE, samples=samples,
                                  per_relation=per, **({'inconclusive': errors} if errors else {})),
                    assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=1 if failures else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('evaluations', evidence['coverage']['evaluations'], 'distinct nontrivial', len(hashes), per, file=sys.stderr)
    if failures:
        path = os.path.join(VERIF, 'build', 'replays', pid + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump(failures[0], open(path, 'w'))
        print('property %s violated (%s): %s' % (pid, failures[0]['kind'], failures[0]['message']))
        print('input: ' + json.dumps(failures[0]['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        sys.exit(1)
    if errors:
        print('CHECK-ERROR: ' + errors[0])
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
