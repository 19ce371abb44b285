#!/usr/bin/env python3
import json
CLAIMED = {
 'C01': 'every reduced scalar, every alias pattern',
 'C02': 'every reduced scalar, every alias pattern',
 'C03': 'every 32-byte string, uint64 and integer',
 'C04': 'every 64-byte string; SHA-512 and crypto/rand are uninterpreted',
 'C05': 'every pair of reduced scalars',
 'C06': 'every limb vector within the stated bounds, both builds',
 'C07': 'every limb vector within the stated bounds, both builds; p prime is assumed for the meaning of "square"',
 'C08': 'every limb vector within the stated bounds and every 32-byte string, both builds',
 'C09': 'every pair of valid points in every permitted representation, both builds; the Edwards group law (RFC 8032 formulas are complete) is the specification',
 'C10': 'every valid point and every scalar, both builds',
 'C11': 'every valid point and every scalar, both builds',
 'C12': 'every valid point and every scalar, every entry of both built-in tables, both builds',
 'C13': 'every valid point in every permitted representation, both builds; the specification is the encoding formula of RFC 9496 on the coordinates',
 'C14': 'every 32-byte string, both builds; the specification is the decoding procedure of RFC 9496',
 'C15': 'every pair of valid points in every permitted representation, both builds; the specification is the equality criterion of RFC 9496',
 'C16': 'every 32-byte string, both builds; the specification is MAP of RFC 9496; SHA-512 and crypto/rand are uninterpreted',
 'C17': 'every 16-byte string and every valid point, both builds; SHA-256 is uninterpreted; that inverses exist only as enumerated is the Elligator theory',
 'C18': 'every value and every byte string of every length, both builds; base64 and hex are uninterpreted functions with their documented lengths and panics',
 'C19': 'every exported operation, every permitted alias pattern, every input, both builds: frame conditions of the contracts',
 'C20': 'every execution of the constant-time operations, both builds: information-flow contracts checked on the SSA form; processor and compiler are assumed not to add leaks',
}
PENDING = {}
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique='contract-based deductive verification of the Go SSA form', level='proof', level_note=CLAIMED[i]))
    else:
        na.append(dict(property=i, reason=PENDING.get(i, 'contracts not written yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
