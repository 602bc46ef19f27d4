"""Rewrites the "fixed" list of KNOWN_FINDINGS.json from the fix: commits of /repo."""
import json, subprocess
MAP = {
 'C01': '4835b6c 93a4e0b ece4bd0', 'C02': 'c204f3d', 'C03': '8bbd14f 64ddb28 68989ee e9790ba 11777e9 a9905ef 5f78e5a b71baf9',
 'C04': 'b96c2ba 6ce8b4e c65894b 1b05b50 de0a9c4 5b003e5 92fd625 d892b8f 3cbcb34', 'C05': 'c2d6122', 'C06': '4a5211d 15011d8 b7f3859',
 'C07': '8c17ecc 6136811 37f87d3 40853ff d2b28bd f9c2a71', 'C08': 'd326488',
 'C09': '30810bb 6d99216 fb89059 fc3b770 f9c247f ab26f08 82cd9a9', 'C10': '272a86b d526b0f', 'C11': 'ba399ad fc4782a',
 'C12': '6c11505 acfdf32 3cde2ed 230625e dddfa3f', 'C13': 'eaeeb15 65ff5d9 317a8a8 0ed06b9 31cf9ec',
 'C14': '00e1582 12747e7 65e8c61 f3aca2f a1d6d93 812419f 011ee2b', 'C15': 'b85acd5 81ded7b', 'C16': '63dceb4 5a485d4 ab66b03',
 'C17': '2703f28 5427ab8 53a978c c5f3155 e09fb00', 'C18': 'c4d1f69 de4a6a3',
 'C19': '9e7c8a3 9d64d71 4aa938e 1da88e3 77a9f75 77aa398 a2a45d9 570b3aa 7b71f1a 20b70d2 bc05bc6 a3ecf33 3b9ecab 75b3a8e b364989 d0e9806 37d25c7',
 'C20': '0289c8b 9dfbbc7 425add0 d0d9b88 945f635',
 'C21': '8bc84bd e5067d1 e859c7a f3a7154 5bc32f6 551bb29 7300b08',
 'C22': '3d0ecf1 c52bf6f 82c6b38 4af093f 5b624ab 4a47654 ed46349',
 'C23': '83f8d34 0c9f8e6 99008ed a56809a 0fbd1b1',
 'C24': '33c8733 372daec 0b4f27a b415adc c1d6687 e605f57'}
log = dict(l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines())
path = '/verif/KNOWN_FINDINGS.json'
d = json.load(open(path))
d['fixed'] = ['fixed: property=%s %s %s' % (p, h, log[h].replace('fix: ', '')) for p, hs in MAP.items() for h in hs.split()]
missing = [h for h, s in log.items() if s.startswith('fix:') and not any(h in v for v in MAP.values())]
print('not mapped:', missing)
json.dump(d, open(path, 'w'), indent=1)
