"""Which public quantities each class has, the units a user may choose, and conversion factors that do not come from pint."""
import math

E_CH = 1.602176634e-19
H = 6.62607015e-34
C0 = 299792458.0
M_E = 9.1093837015e-31
HBAR = H/(2*math.pi)
EPS0 = 8.8541878128e-12
BOHR = 4*math.pi*EPS0*HBAR**2/(M_E*E_CH**2)
HARTREE = HBAR**2/(M_E*BOHR**2)
AMU = 1.66053906660e-27

ENERGY = {'meV': E_CH*1e-3, 'eV': E_CH, 'THz': H*1e12, '1/cm': H*C0*100, 'hartree': HARTREE, 'joule': 1.0}
ENERGY_PLAIN = {'meV': E_CH*1e-3, 'eV': E_CH, 'hartree': HARTREE, 'ueV': E_CH*1e-6, 'joule': 1.0}
LENGTH = {'angstrom': 1e-10, 'bohr': BOHR, 'nm': 1e-9}
RLENGTH = {'1/angstrom': 1e10, '1/bohr': 1/BOHR, '1/nm': 1e9, '1/meter': 1.0}
AREA = {'bohr**2': BOHR**2, 'angstrom**2': 1e-20, 'mbarn': 1e-31, 'barn': 1e-28, 'meter**2': 1.0}
MASS = {'amu': AMU, 'kg': 1.0, 'm_e': M_E}
TEMP = {'K': 1.0, 'mK': 1e-3}          # degC is affine, see to_si
FC = {'hartree/bohr**2': HARTREE/BOHR**2, 'eV/angstrom**2': E_CH/1e-20, 'mdyne/angstrom': 1e-8/1e-10, 'newton/meter': 1.0, 'meV/(bohr*angstrom)': E_CH*1e-3/(BOHR*1e-10)}
CHARGE = {'e': E_CH, 'coulomb': 1.0}
DIEL = {'e**2/(bohr*hartree)': E_CH**2/(BOHR*HARTREE), 'e**2/(angstrom*eV)': E_CH**2/(1e-10*E_CH), 'coulomb**2/(bohr*hartree)': 1/(BOHR*HARTREE)}
RENERGY = {'1/' + k: 1/v for k, v in ENERGY_PLAIN.items()}
AREA_E = {f'{a}/{e}': AREA[a]/ENERGY_PLAIN[e] for a in AREA for e in ('meV', 'hartree', 'eV', 'joule')}

FREQ = {'frequencies': ENERGY}
QUANT = {
    'crystal': {'cell_vectors': LENGTH, 'atom_mass': MASS},
    'fc': {'force_constants': FC, 'born': CHARGE, 'dielectric': DIEL},
    'qpm': FREQ, 'qpf': FREQ,
    'sf': dict(FREQ, structure_factors=AREA, temperature=TEMP),
    'sfn': dict(FREQ, structure_factors=AREA),
    'dw': {'debye_waller': AREA, 'temperature': TEMP},
    's1': {'x_data': ENERGY, 'y_data': RENERGY},
    's1b': {'x_data': ENERGY, 'y_data': RENERGY},
    's1c': {'x_data': ENERGY, 'y_data': RENERGY},
    'disp': {'x_data': RLENGTH, 'y_data': ENERGY},
    's2': {'x_data': RLENGTH, 'y_data': ENERGY, 'z_data': AREA_E},
    's2c': {'x_data': RLENGTH, 'y_data': ENERGY, 'z_data': AREA_E},
}


def quant(funit):
    """the table for a world whose energy axes are in funit: a spectrum per THz or per 1/cm cannot be shown per energy"""
    q = {k: dict(v) for k, v in QUANT.items()}
    if funit == 'THz':
        r = {'1/THz': 1/(H*1e12), '1/GHz': 1/(H*1e9), 'ps': 1/(H*1e12), 'fs': 1/(H*1e15)}
        z = {'mbarn/THz': 1e-31/(H*1e12), 'barn*ps': 1e-28/(H*1e12), 'angstrom**2/GHz': 1e-20/(H*1e9)}
    elif funit == '1/cm':
        r = {'cm': 1/(H*C0*100), 'mm': 0.1/(H*C0*100), 'angstrom': 1e-10/(H*C0)}
        z = {'mbarn*cm': 1e-31/(H*C0*100), 'bohr**2*angstrom': BOHR**2*1e-10/(H*C0)}
    else:
        return q
    for k in ('s1', 's1b', 's1c'):
        q[k]['y_data'] = r
    for k in ('s2', 's2c'):
        q[k]['z_data'] = z
    return q


BAD = ['kg', 'kelvin', 'second', 'nm', 'meV', '1/angstrom', 'mbarn', 'e', 'foo', 'mole/kg**3', '1/cm', 'volt', '', 'meV meV', '(', 'hertz**2', 'candela']


def to_si(mag, unit, table):
    if unit == 'degC':
        return mag + 273.15
    return mag*table[unit]


def from_si(si, unit, table):
    if unit == 'degC':
        return si - 273.15
    return si/table[unit]


def choices(attr, table, offset=True):
    return list(table) + (['degC', 'degC'] if attr == 'temperature' and offset else [])
