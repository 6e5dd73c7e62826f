"""C07: CASTEP readers on damaged files and failing storage."""
from .. import damage


class C07(damage.DamageCheck):
    id = 'C07'
    n_runs = {'quick': 3000, 'thorough': 30000}
    wall = {'quick': 80, 'thorough': 1200}
    formats = ['phonon', 'phonon', 'phonon_dos', 'castep_bin']
    repo_sets = [dict(fmt='phonon', repo={'NaH.phonon': 'castep_files/NaH/NaH.phonon'}),
                 dict(fmt='phonon', repo={'z.phonon': 'castep_files/ZnS/loto_directions.phonon'}),
                 dict(fmt='phonon', repo={'s.phonon': 'castep_files/Si2-sc-skew/Si2-sc-skew.phonon'}),
                 dict(fmt='castep_bin', repo={'s.castep_bin': 'castep_files/Si2-sc-skew/Si2-sc-skew.castep_bin'})]
    assumptions = ['a zeroed block inside a binary record, and a cut inside the last number of a text file, leave well-formed files and are '
                   'outside the property']


CHECK = C07()
