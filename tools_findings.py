"""Refresh the 'fixed' entries of known_findings.json from the fix: commits of the repository."""
import json
import subprocess

OPEN = [k for k in json.load(open('/verif/known_findings.json'))['findings'] if k['status'] == 'open']
PROP = [  # (start of the subject after 'fix: ', property)
    ('escape comments of isar', 'C12'), ('report isar and patch names', 'C12'), ('report field names that', 'C12'), ('swap last limited array', 'C12'), ('pass sizer shared by', 'C12'), ('check types of isar', 'C12'),
    ('report names defined more', 'C12'), ('check values of isar', 'C12'),
    ('fail when patch rules leave', 'C17'), ('fail when the limited patch rule', 'C17'), ('let dynamic and static patch rules', 'C17'),
    ('include C++ headers of files', 'C16'), ('walk each included file once', 'C16'),
    ('report patch problems', 'C13'),
    ('refuse isar expressions', 'C13'),
    ('refuse shifts by', 'C13'),
    ('do not take directories', 'C13'),
    ('report files that are not', 'C13'),
    ('report malformed isar', 'C13'),
    ('report isar elements without', 'C13'),
    ('report duplicate enumerator', 'C13'),
    ('do not take constants for', 'C13'),
    ('generate C++ full optionals of', 'C13'),
    ('report includes nested', 'C13'),
    ('report arrays of isar', 'C13'),
    ('do not take type names', 'C13'),
    ('report isar xml in', 'C13'),
    ('report arrays bound to', 'C13'),
    ('report syntax errors at', 'C13'),
    ('align optional fields in Python codec', 'C01'), ('align block after nested dynamic struct', 'C01'),
    ('encode and print bytes fields', 'C01'), ('decode optional enum', 'C02'), ('compile C++ full unions', 'C12'),
    ('pad dynamic struct ending in an optional', 'C03'), ('count last fixed member', 'C05'), ('align C++ full optionals', 'C03'),
    ('check bounds when C++', 'C07'), ('bound C++ full vectors', 'C07'), ('do not consume a broken last', 'C07'),
    ('print integers in decimal', 'C18'), ('escape single quote', 'C18'), ('pad raw C++ optionals', 'C08'),
    ('keep struct unlimited', 'C04'), ('return unaligned address', 'C09'), ('classify isar typedefs', 'C04'),
    ('reject greedy tail not ending', 'C06'), ('evaluate the iterable', 'C10'), ('assign array slices', 'C10'),
    ('do not leave an element behind', 'C10'), ('refuse numbers too large', 'C10'), ('limit arrays and bytes to what', 'C10'),
    ('copy elements of limited', 'C11'), ('copy optional composites', 'C11'), ('let copy_from fill', 'C11'),
    ('divide integers', 'C14'), ('sort definitions by all', 'C15'), ('report recursive', 'C13'), ('hand numbers instead', 'C14'),
    ('multiply whole', 'C14'), ('negative hexadecimal', 'C14'),
    ('reject optional fields of', 'C12'), ('reject arrays of types', 'C12'), ('reject optional fields and arrays', 'C12'),
    ('reject enumerators and', 'C12'), ('reject enumerators named', 'C12'), ('reject constants and', 'C12'),
    ('reject names redefined', 'C12'), ('compile C++ full enums', 'C12'), ('report location of repeated', 'C13'),
    ('report names that are reserved', 'C12'), ('compile C++ full sources of', 'C12'), ('do not take types named', 'C15'), ('refuse input files whose', 'C20'),
]


def main():
    out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    fixed = []
    for line in out.splitlines():
        h, subj = line.split(' ', 1)
        if not subj.startswith('fix: '):
            continue
        what = subj[5:]
        p = [q for s, q in PROP if what.startswith(s)]
        if not p:
            print('unmapped: ' + line)
            continue
        fixed.append({'property': p[0], 'status': 'fixed', 'commit': h, 'what': 'fixed: property=%s %s %s' % (p[0], h, what)})
    json.dump({'findings': OPEN + fixed}, open('/verif/known_findings.json', 'w'), indent=1)


main()
