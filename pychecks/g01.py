"""G01: the systems described by the launch files, node by node (Hypothesis over launch arguments)."""
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import time
import types
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [os.path.join(HERE, 'stubs'), os.path.join(REPO, 'point_type_converter'), VERIF]

RULE = ('random subsets of the launch arguments with random distinct topic names for each launched system; non-trivial: at least one argument '
        'overridden')
ASSUMPTIONS = ['launch, launch_ros, rclcpp and rclpy are stand-ins that resolve names, remappings, parameters and QoS as ROS 2 does',
               'launch files are started from the directory of the repository, as their parameter file paths require',
               'odometry.launch.py is left out: the node it starts is commented out in the repository']
WORK = os.path.join(VERIF, 'build', 'G01')
N_EDGE, N_SURFACE = 3, 5

NODES = {
    ('lidar_feature_extraction', 'lidar_feature_extraction'): dict(
        app='extraction/app/feature_extraction.cpp', src=['extraction/src/*.cpp', 'lib/src/*.cpp'], libs=['pclfilters', 'pclio']),
    ('lidar_feature_localization', 'lidar_feature_localization'): dict(
        app='localization/app/localization.cpp', src=['localization/src/*.cpp', 'lib/src/*.cpp', 'rotationlib/src/*.cpp', 'rotationlib/src/*/*.cpp'],
        libs=['pclio', 'pclfilters']),
    ('lidar_feature_mapping', 'lidar_feature_mapping'): dict(
        app='mapping/src/mapping.cpp', src=['localization/src/*.cpp', 'lib/src/*.cpp', 'rotationlib/src/*.cpp', 'rotationlib/src/*/*.cpp'],
        libs=['pclio', 'pclfilters']),
    ('ekf_localizer', 'ekf_localizer'): dict(
        app='ekf_localizer/src/ekf_localizer_node.cpp',
        src=['ekf_localizer/src/*.cpp', 'kalman_filter/src/*.cpp', 'lib/src/*.cpp', 'rotationlib/src/*.cpp', 'rotationlib/src/*/*.cpp'],
        libs=['pclfilters']),
    ('path_generator', 'path_generator'): dict(app='path_generator/src/node.cpp', src=[], libs=[]),
    ('lidar_feature_map_loader', 'lidar_feature_map_loader'): dict(
        component='MapLoaderNode', src=['map_loader/src/*.cpp'], libs=['pclio'], start={'pcd_filename': 'maps/edge.pcd'}),
    ('map_tf_generator', 'map_tf_generator'): dict(component='MapTFGeneratorNode', src=['map_tf_generator/src/*.cpp'], libs=['pclio']),
}
CONVERTER = ('point_type_converter', 'listener')


class Broken(Exception):
    pass


def require(ok, msg):
    if not ok:
        raise Broken(msg)


def die(msg):
    print('CHECK-ERROR: ' + msg, flush=True)
    sys.exit(2)


# ---- the nodes as they are built from the tree
def build():
    import run_check as rc
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK + '/maps')
    for name, n in (('edge', N_EDGE), ('surface', N_SURFACE)):
        with open('%s/maps/%s.pcd' % (WORK, name), 'w') as f:
            f.write('VERSION .7\nFIELDS x y z\nSIZE 4 4 4\nTYPE F F F\nCOUNT 1 1 1\nWIDTH %d\nHEIGHT 1\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS %d\nDATA ascii\n'
                    % (n, n) + ''.join('%d %d %d\n' % (i, i * i, 1) for i in range(n)))
    flags = ['-std=c++17', '-O0', '-w', '-fPIC', '-pthread', '-D_GLIBCXX_ASSERTIONS'] + rc.include_flags({})
    jobs, binaries = [], {}
    lib = {}
    for key, spec in NODES.items():
        objs = []
        for s in rc.sources(dict(repo=spec['src'] + (['!' + spec['app']] if 'app' in spec else []))):
            if s.endswith('lib/src/lib.cpp'):
                continue
            if s not in lib:
                lib[s] = '%s/%d.o' % (WORK, len(lib))
                jobs.append((s, lib[s], flags))
            objs.append(lib[s])
        o = '%s/dump_%s.o' % (WORK, key[1])
        jobs.append((VERIF + '/harness/g01_dump.cpp', o, flags + (['-DG01_APP'] if 'app' in spec else ['-DG01_COMPONENT=ros_stub_make_node_' + spec['component']])))
        main = [o]
        if 'app' in spec:
            a = '%s/app_%s.o' % (WORK, key[1])
            jobs.append((os.path.join(REPO, spec['app']), a, flags + ['-Dmain=app_main']))
            main.append(a)
        binaries[key] = (main, objs, spec)

    def one(j):
        r = subprocess.run(['g++'] + j[2] + ['-c', j[0], '-o', j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return j, r
    with ThreadPoolExecutor(rc.JOBS) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                die('compiling %s failed:\n%s' % (j[0], r.stdout[-4000:]))

    def link(item):
        key, (main, objs, spec) = item
        cmd = ['g++', '-pthread'] + main + objs + ['-o', '%s/node_%s' % (WORK, key[1])]
        for l in spec['libs']:
            cmd += rc.LIBS[l]
        return key, subprocess.run(cmd + ['-lfmt', '-lboost_system'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(rc.JOBS) as ex:
        for key, r in ex.map(link, binaries.items()):
            if r.returncode:
                die('linking %s failed:\n%s' % (key, r.stdout[-4000:]))


STARTED = {}


def start(key, params):
    """Endpoints, parameters and latched clouds of a node started with these parameters."""
    memo = (key, tuple(sorted((k, type(v).__name__, str(v)) for k, v in params.items())))
    if memo in STARTED:
        return STARTED[memo]
    if key == CONVERTER:
        import rclpy
        from point_type_converter import convert
        rclpy.state.endpoints = []
        rclpy.state.topics = {}
        convert.main()
        ends = []
        for pub, topic, kind, qos in rclpy.state.endpoints:
            if isinstance(qos, int):
                ends.append((pub, topic, kind, True, False))
                continue
            rel = str(getattr(qos, 'reliability', 'RELIABLE'))
            dur = str(getattr(qos, 'durability', 'VOLATILE'))
            ends.append((pub, topic, kind, 'BEST_EFFORT' not in rel, 'TRANSIENT_LOCAL' in dur))
        out = dict(endpoints=ends, parameters={}, clouds={}, up=True, log='')
    else:
        require(key in NODES, 'there is no executable %s in package %s' % (key[1], key[0]))
        args = []
        for k, v in params.items():
            kind = 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'double' if isinstance(v, float) else 'string'
            args.append('%s=%s:%s' % (k, kind, str(v).lower() if kind == 'bool' else v))
        cwd = '%s/run_%d_%d' % (WORK, os.getpid(), len(STARTED))
        shutil.copytree(WORK + '/maps', cwd + '/maps')
        r = subprocess.run(['%s/node_%s' % (WORK, key[1])] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        shutil.rmtree(cwd, ignore_errors=True)
        out = dict(endpoints=[], parameters={}, clouds={}, up=False, log=r.stdout[-600:])
        for line in r.stdout.splitlines():
            w = line.split()
            if line.startswith('E ') and len(w) >= 6:
                kind = re.match(r'[\w:]+', ' '.join(w[3:-2])).group(0).split('::')[-1]
                kind = kind[:-1] if kind.endswith('_') else kind
                out['endpoints'].append((w[1] == 'pub', w[2], kind, w[-2] == '1', w[-1] == '1'))
            elif line.startswith('P ') and len(w) == 3:
                out['parameters'][w[1]] = w[2]
            elif line.startswith('M ') and len(w) == 3:
                out['clouds'][w[1]] = int(w[2])
            elif line == 'UP':
                out['up'] = True
    STARTED[memo] = out
    return out


# ---- launch descriptions
def flatten(entities, namespace=''):
    from launch import actions as la
    from launch_ros import actions as ra
    out = []
    for e in entities:
        if isinstance(e, la.DeclareLaunchArgument):
            e.apply()
        elif isinstance(e, la.GroupAction):
            out += flatten(e.actions, namespace)
        elif isinstance(e, ra.PushRosNamespace):
            from launch import text
            namespace = namespace + '/' + text(e.namespace).strip('/')
        elif isinstance(e, ra.Node):
            out.append((e, namespace))
    return out


def python_launch(path, arguments):
    import launch
    import yaml
    launch.state.arguments = dict(arguments)
    module = types.ModuleType('launch_file')
    module.__file__ = path
    exec(compile(open(path).read(), path, 'exec'), module.__dict__)
    nodes = []
    for n, ns in flatten(module.generate_launch_description().entities):
        own = (launch.text(n.namespace) or '').strip('/')
        ns = (ns + '/' + own).strip('/')
        params = {}
        for p in n.parameters:
            if isinstance(p, dict):
                params.update({launch.text(k): (launch.text(v) if hasattr(v, 'perform') else v) for k, v in p.items()})
                continue
            f = os.path.join(REPO, launch.text(p))
            require(os.path.exists(f), 'the parameter file %s does not exist' % launch.text(p))
            for pattern, body in (yaml.safe_load(open(f)) or {}).items():
                full = '/' + '/'.join(x for x in (ns, launch.text(n.name) or '') if x)
                rx = '^/?' + re.escape(pattern.strip('/')).replace(r'\*\*', '.*').replace(r'\*', '[^/]*') + '$'
                if re.match(rx, full) or re.match(rx, full.strip('/')):
                    params.update(body.get('ros__parameters', {}))
        nodes.append(dict(key=(launch.text(n.package), launch.text(n.executable)), name=launch.text(n.name), ns=ns,
                          remap=[(launch.text(a), launch.text(b)) for a, b in n.remappings], params=params))
    return nodes


def xml_launch(path, arguments):
    root = ET.parse(path).getroot()
    values = {}
    for a in root.findall('arg'):
        values[a.get('name')] = arguments.get(a.get('name'), a.get('default'))

    def sub(t):
        return re.sub(r'\$\(var (\w+)\)', lambda m: values[m.group(1)], t)
    nodes = []
    for n in root.findall('node'):
        nodes.append(dict(key=(n.get('pkg'), n.get('exec')), name=sub(n.get('name') or ''), ns=sub(n.get('namespace') or '').strip('/'),
                          remap=[(sub(r.get('from')), sub(r.get('to'))) for r in n.findall('remap')],
                          params={sub(p.get('name')): sub(p.get('value')) for p in n.findall('param')}))
    return nodes


def expand(topic, ns):
    if topic.startswith('/'):
        return topic
    return '/' + (ns + '/' if ns else '') + topic


def resolve(topic, node):
    full = expand(topic, node['ns'])
    for a, b in node['remap']:
        if expand(a, node['ns']) == full:
            return expand(b, node['ns'])
    return full


def system(nodes):
    """Starts every node and resolves its endpoints."""
    out = []
    for n in nodes:
        params = {k: v for k, v in n['params'].items() if k != 'use_sim_time'}
        s = start(n['key'], params)
        require(s['up'], '%s does not start with the launched parameters: %s' % (n['key'][1], s['log']))
        for k, v in params.items():
            require(k in s['parameters'], 'parameter %s given to %s is not one of its parameters' % (k, n['key'][1]))
        for pub, raw, kind, rel, dur in s['endpoints']:
            out.append(dict(node=n, exe=n['key'][1], pub=pub, raw=raw.strip('/'), topic=resolve(raw, n), kind=kind, reliable=rel, latched=dur,
                            cloud=s['clouds'].get(expand(raw, ''))))
    return out


def one(ends, exe, pub, raw, name=None):
    hits = [e for e in ends if e['exe'] == exe and e['pub'] == pub and e['raw'] == raw and (name is None or e['node']['name'] == name)]
    require(len(hits) == 1, '%d %s endpoints %s of %s' % (len(hits), 'publishing' if pub else 'subscribing', raw, exe))
    return hits[0]


def flows(ends, producer, consumer, what):
    require(producer['topic'] == consumer['topic'], '%s: published on %s, read from %s' % (what, producer['topic'], consumer['topic']))
    require(producer['kind'] == consumer['kind'], '%s: published as %s, read as %s' % (what, producer['kind'], consumer['kind']))
    require(producer['reliable'] or not consumer['reliable'], '%s: a reliable subscription of a best effort publisher' % what)
    require(producer['latched'] or not consumer['latched'], '%s: a transient local subscription of a volatile publisher' % what)
    others = [e['exe'] for e in ends if e['pub'] and e['topic'] == consumer['topic'] and e is not producer]
    require(not others, '%s: also published by %s' % (what, others))


def expect_topic(end, topic, what):
    require(end['topic'] == topic, '%s is %s instead of %s' % (what, end['topic'], topic))


LOCALIZATION = {'input_initial_pose_topic': '/initialpose3d', 'input_twist_topic': '/twist', 'input_sensor_points_topic': '/points_raw',
                'lidar_feature_pose_topic': '/lidar_feature_pose', 'edge_map_topic': '/edge_map', 'surface_map_topic': '/surface_map',
                'ekf_odometry': '/ekf_odom'}
MAPPING = {'input_sensor_points_topic': '/points_raw', 'input_pose_topic': '/pose'}
TF = {'input_map_points_topic': '/map/pointcloud_map', 'map_frame': 'map', 'viewer_frame': 'viewer'}


def sensor_to_features(ends, args):
    sensor = one(ends, 'listener', False, 'points_raw')
    expect_topic(sensor, args['input_sensor_points_topic'], 'the input of the converter')
    require(not sensor['reliable'] and not sensor['latched'], 'the converter does not accept a best effort sensor')
    require(not [e for e in ends if e['pub'] and e['topic'] == sensor['topic']], 'a launched node publishes on the topic of the sensor')
    flows(ends, one(ends, 'listener', True, 'points_converted'), one(ends, 'lidar_feature_extraction', False, 'points_raw'), 'converted points')


def run_localization(case):
    args = dict(LOCALIZATION, **case)
    ends = system(python_launch(REPO + '/lidar_feature_launch/launch/localization.launch.py', case))
    sensor_to_features(ends, args)
    loc, ekf, ext = 'lidar_feature_localization', 'ekf_localizer', 'lidar_feature_extraction'
    for part in ('scan_edge', 'scan_surface'):
        flows(ends, one(ends, ext, True, part), one(ends, loc, False, part), part)
    pose, odom = one(ends, ekf, False, 'in_pose_with_covariance'), one(ends, ekf, True, 'ekf_odom')
    flows(ends, one(ends, loc, True, 'estimated_pose'), pose, 'estimated pose')
    flows(ends, odom, one(ends, loc, False, 'optimization_start_odom'), 'filtered odometry')
    expect_topic(pose, args['lidar_feature_pose_topic'], 'the pose of the localisation')
    expect_topic(odom, args['ekf_odometry'], 'the odometry of the filter')
    expect_topic(one(ends, ekf, False, 'initialpose'), args['input_initial_pose_topic'], 'the initial pose of the filter')
    expect_topic(one(ends, ekf, False, 'in_twist_with_covariance'), args['input_twist_topic'], 'the twist of the filter')
    for arg, n in (('edge_map_topic', N_EDGE), ('surface_map_topic', N_SURFACE)):
        hits = [e for e in ends if e['pub'] and e['topic'] == args[arg]]
        require(len(hits) == 1, '%d publishers on the %s' % (len(hits), arg))
        require(hits[0]['latched'] and hits[0]['kind'] == 'PointCloud2', 'the map on %s is not latched' % arg)
        require(hits[0]['cloud'] == n, 'the map on %s is not the one the localisation reads (%s points instead of %d)' % (arg, hits[0]['cloud'], n))


def run_mapping(case):
    args = dict(MAPPING, **case)
    ends = system(python_launch(REPO + '/lidar_feature_launch/launch/mapping.launch.py', case))
    sensor_to_features(ends, args)
    flows(ends, one(ends, 'lidar_feature_extraction', True, 'scan_edge'), one(ends, 'lidar_feature_mapping', False, 'scan_edge'), 'scan_edge')
    expect_topic(one(ends, 'lidar_feature_mapping', False, 'pose'), args['input_pose_topic'], 'the pose of the mapping')


def run_tf(case):
    args = dict(TF, **case)
    nodes = xml_launch(REPO + '/map_tf_generator/launch/map_tf_generator.launch.xml', case)
    ends = system(nodes)
    expect_topic(one(ends, 'map_tf_generator', False, 'pointcloud_map'), args['input_map_points_topic'], 'the map of the generator')
    require(nodes[0]['params'] == {'map_frame': args['map_frame'], 'viewer_frame': args['viewer_frame']}, 'frames %s' % nodes[0]['params'])


SYSTEMS = dict(localization=(run_localization, LOCALIZATION), mapping=(run_mapping, MAPPING), tf=(run_tf, TF))


def strategy(arguments):
    from hypothesis import strategies as st
    segment = st.from_regex(r'\A[a-z][a-z0-9_]{0,5}\Z')
    topic = st.lists(segment, min_size=1, max_size=3).map(lambda s: '/in/' + '/'.join(s))
    names = sorted(arguments)

    def assemble(pair):
        chosen, topics = pair
        case = {}
        for n, t in zip(sorted(chosen), topics):
            case[n] = t if n.endswith('topic') or n == 'ekf_odometry' else t.strip('/').replace('/', '_')
        return case
    return st.tuples(st.sets(st.sampled_from(names)), st.lists(topic, min_size=len(names), max_size=len(names), unique=True)).map(assemble)


def shard(job):
    seed_, kind, examples = job
    import warnings
    warnings.simplefilter('ignore')
    from hypothesis import HealthCheck, Phase, given, seed, settings
    runner, arguments = SYSTEMS[kind]
    stats = dict(kind=kind, evaluations=0, hashes=set(), samples=[], failure=None)

    @seed(seed_)
    @settings(max_examples=examples, database=None, deadline=None, suppress_health_check=list(HealthCheck), print_blob=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
    @given(strategy(arguments))
    def test(case):
        stats['evaluations'] += 1
        try:
            runner(case)
        except ImportError as e:
            stats['error'] = 'the stand-ins lack something: %s' % e
            return
        except Exception as e:
            stats['failure'] = dict(kind=kind, case=case, message=str(e) if isinstance(e, Broken) else '%s: %s' % (type(e).__name__, e))
            raise
        if case:
            text = json.dumps(case, sort_keys=True)
            stats['hashes'].add(hashlib.sha1((kind + text).encode()).hexdigest()[:16])
            if len(stats['samples']) < 2:
                stats['samples'].append(kind + ': ' + text)
    try:
        test()
    except Exception as e:
        if stats['failure'] is None:
            stats['error'] = '%s: %s' % (type(e).__name__, e)
        elif 'Flaky' in type(e).__name__:
            stats['error'] = 'not reproducible: ' + stats['failure']['message']
            stats['failure'] = None
    return stats


def main():
    pid, tier, seed_ = sys.argv[1], sys.argv[2], int(sys.argv[3])
    t0 = time.time()
    build()
    if len(sys.argv) > 4:
        f = json.load(open(sys.argv[4]))
        try:
            SYSTEMS[f['kind']][0](f['case'])
        except Exception as e:
            print('reproduced: %s' % e)
            sys.exit(1)
        sys.exit(0)
    print('built after %.1f s' % (time.time() - t0), file=sys.stderr)
    n = 400 if tier == 'quick' else 6000
    jobs = [(seed_ * 100003 + i, kind, n) for i in range(3) for kind in SYSTEMS]
    with multiprocessing.Pool(min(8, os.cpu_count() or 8)) as pool:
        results = pool.map(shard, jobs, chunksize=1)
    errors = [r['error'] for r in results if r.get('error')]
    per = {}
    for r in results:
        per.setdefault(r['kind'], dict(evaluations=0, nontrivial=0))
        per[r['kind']]['evaluations'] += r['evaluations']
        per[r['kind']]['nontrivial'] += len(r['hashes'])
    hashes = set().union(*[r['hashes'] for r in results])
    failures = [r['failure'] for r in results if r['failure']]
    failures.sort(key=lambda f: len(json.dumps(f['case'])))
    evidence = dict(property=pid, tier=tier, seed=seed_, level='exploration',
                    coverage=dict(evaluations=sum(r['evaluations'] for r in results), distinct_nontrivial=len(hashes), rule=RULE,
                                  samples=[s for r in results for s in r['samples']][:12] or ['(none)'], per_relation=per,
                                  **({'inconclusive': errors} if errors else {})),
                    assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=1 if failures else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('evaluations', evidence['coverage']['evaluations'], 'distinct nontrivial', len(hashes), per, file=sys.stderr)
    shutil.rmtree(WORK, ignore_errors=True)
    if failures:
        path = os.path.join(VERIF, 'build', 'replays', pid + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump(failures[0], open(path, 'w'))
        print('property %s violated (%s): %s' % (pid, failures[0]['kind'], failures[0]['message']))
        print('input: ' + json.dumps(failures[0]['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        sys.exit(1)
    if errors:
        print('CHECK-ERROR: ' + errors[0])
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
