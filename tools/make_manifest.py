#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (python3 tools/make_manifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORA = 'random workloads on the real library (optimised, address+undefined sanitizer builds) with an independent reference oracle over the published results'
T = {
 'C01': ORA, 'C02': ORA, 'C03': ORA, 'C04': ORA, 'C05': ORA, 'C06': ORA, 'C07': ORA,
 'C08': 'histories of operations on one object compared with fresh objects, under sanitizers',
 'C09': 'bit-for-bit comparison of executions under many thread counts and injected schedules (OpenMP runtime stand-in) with a serial one',
 'C10': 'thread sanitizer with an OpenMP runtime stand-in whose synchronisation it sees',
 'C11': 'metamorphic comparison of executions on equivalent data, under sanitizers',
 'C12': 'concurrent objects compared with isolated ones; thread sanitizer',
 'C13': 'address and undefined behaviour sanitizers plus an allocation monitor over random object lives',
 'C14': 'memory sanitizer; executions over differently poisoned heap and stack compared',
 'C15': ORA + '; output capture', 'C16': 'step-by-step and compact executions compared with single runs, under sanitizers',
 'C17': ORA + ', in nine number type configurations', 'C18': 'oracle over sampled and boundary pairs in executions at sizes beyond index arithmetic',
 'C19': 'stack painting: the depth every operation reaches, large against small data',
 'C20': 'fault injection into the allocator during runs and re-runs; results, later runs and live blocks monitored, under sanitizers',
 'L01': 'operation histories compared with an abstract sequence after every step, under sanitizers and an allocation monitor',
 'L02': 'operation histories compared with an abstract set after every step, under sanitizers and an allocation monitor',
 'L03': 'operation histories compared with an abstract map after every step, under sanitizers and an allocation monitor',
 'L04': 'operation histories compared with an abstract sequence after every step, under sanitizers and an allocation monitor',
 'L05': 'order, hash and prime contracts monitored over generated values, under sanitizers',
 'L06': 'fault injection into the allocator during operation histories compared with abstract containers, under sanitizers',
 'A01': 'reference partition over the observed maps, under sanitizers', 'A02': 'reference extremes over the observed ranges, under sanitizers',
 'A03': 'reference statistics over the observed values, under sanitizers', 'A04': 'permutation, order and unchanged-table monitors, under sanitizers with a hang watchdog',
 'A05': 'differential monitor: C++ against C functions, under sanitizers', 
 'A06': 'fault injection into the allocator during every call; results compared with references, arguments and live blocks monitored, under sanitizers',
 'K01': 'reference model over every operation on random cluster trees, under sanitizers',
 'G01': 'edge multiset and adjacency monitors around every graph operation, under sanitizers and an allocation monitor',
 'O01': 'capture of files and output, parsed and compared with the stored values, under sanitizers',
 'O02': 'capture of log output from concurrent threads, exactly-once and order checker over unique messages, under sanitizers',
 'B01': 'differential monitor: C++ class histories against the C interface, under sanitizers and an allocation monitor',
 'B02': 'differential monitor: Python object histories against the C library, with address sanitizer and reference and memory accounting',
 'B03': 'differential monitor: Java object histories against the C library, with JNI call checking and memory accounting',
}
NOTE = 'Held on the executions explored (counts in the evidence file); says nothing about inputs and schedules not driven. Trusts the compiler, its sanitizers and the reference oracle.'
sys.path.insert(0, V + '/lib')
import checks
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 run.py --prepare',
     'checks': [{'property': p, 'quick_cmd': 'python3 run.py ' + p, 'thorough_cmd': 'python3 run.py --thorough ' + p, 'technique': T[p], 'level': 'exploration', 'level_note': NOTE} for p in props if p in checks.CHECKS],
     'not_applicable': [{'property': p, 'reason': 'its check is still being built'} for p in props if p not in checks.CHECKS],
     'notes': 'No hooks in /repo: everything is observed through public interfaces, sanitizers, link-time wrappers of the allocator and stand-ins for the OpenMP runtime. The seed is read from VERIF_SEED, the tier from VERIF_TIER or --thorough.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
