"""C08: Phonopy readers on damaged files and failing storage."""
import re

from .. import damage, world as W


class C08(damage.DamageCheck):
    id = 'C08'
    n_runs = {'quick': 800, 'thorough': 30000}
    wall = {'quick': 80, 'thorough': 1200}
    formats = ['phonopy_fc', 'phonopy_phonons']
    repo_sets = [dict(fmt='phonopy_fc', repo={'phonopy.yaml': 'phonopy_files/NaCl/phonopy_nofc.yaml',
                                              'FORCE_CONSTANTS': 'phonopy_files/NaCl/FORCE_CONSTANTS_nacl'}),
                 dict(fmt='phonopy_fc', repo={'phonopy.yaml': 'phonopy_files/NaCl/phonopy_nofc_noborn.yaml',
                                              'force_constants.hdf5': 'phonopy_files/NaCl/force_constants.hdf5',
                                              'BORN': 'phonopy_files/NaCl/BORN_nacl'}),
                 dict(fmt='phonopy_phonons', evec=False, repo={'mesh.yaml': 'phonopy_files/NaCl/mesh/mesh_no_evec.yaml'}),
                 dict(fmt='phonopy_phonons', repo={'qpoints.hdf5': 'phonopy_files/NaCl/qpoints/qpoints.hdf5',
                                                   'phonopy.yaml': 'phonopy_files/NaCl/phonopy_nofc_noborn.yaml'})]
    assumptions = ['a zeroed block inside raw HDF5 data, a cut inside the last number of a text file, and a cut that removes whole optional '
                   'sections leave well-formed files and are outside the property']

    def excused(self, spec, content, d, got, want, load_alt):
        r = super().excused(spec, content, d, got, want, load_alt)
        if r:
            return r
        if d['kind'] in ('cut', 'torn_between_opens') and d['file'] in ('BORN', 'phonopy.yaml') \
                and damage.mid_number(content[d['file']], d['at']) and got[1] == 'ForceConstants':
            # one shortened Born charge also enters every force constant: the dipole part is subtracted on reading
            rest = [{k: v for k, v in x[2].items() if k != 'force_constants'} for x in (got, want)]
            n = damage.count_diff(*rest)
            if n is not None and n <= 3 and 'born' in got[2]:
                return 'last number shortened'
        if d['file'] == 'phonopy.yaml' and d['kind'] in ('cut', 'torn_between_opens'):
            # the optional Born charges and dielectric tensor at the end of the file are gone altogether
            data = content['phonopy.yaml']
            left = data[:d['at']]
            m = re.search(rb'^(nac|born_effective_charge):', data, re.M)
            if m and d['at'] >= m.start() and not re.search(rb'born_effective_charge: *\n?', left) or m and d['at'] < m.start():
                try:
                    alt = load_alt(dict(content, **{'phonopy.yaml': data[:m.start()]}))
                except Exception:
                    return None
                if W.diff(got, alt) is None:
                    return 'optional sections gone'
        return None


CHECK = C08()
