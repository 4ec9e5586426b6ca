"""Assumed contracts of pymatgen: a lattice is its matrix (rows are the cell vectors); a structure is a lattice with fractional
coordinates and atomic numbers of its sites, in their order."""
from . import terms as T
from .terms import Unsupported
from .core import E
from .arr import to_arr


class Lattice:
    def __init__(self, matrix):
        self._matrix = to_arr(matrix).fresh_copy()

    @property
    def matrix(self):
        return self._matrix.fresh_copy()

    @staticmethod
    def from_parameters(*a, **k):
        raise Unsupported("pymatgen.core.Lattice.from_parameters")


class Structure:
    def __init__(self, lattice, species, coords, **k):
        if not isinstance(lattice, Lattice):
            lattice = Lattice(lattice)
        self.lattice = lattice
        self._z = to_arr(species).fresh_copy()
        self._f = to_arr(coords).fresh_copy()

    @property
    def atomic_numbers(self):
        return self._z.fresh_copy()

    @property
    def frac_coords(self):
        return self._f.fresh_copy()

    @staticmethod
    def from_spacegroup(*a, **k):
        raise Unsupported("pymatgen.core.Structure.from_spacegroup")


class _Site:
    def __init__(self, z):
        self.number = z


class IMolecule:
    def __init__(self, species, coords, **k):
        self._z = to_arr(species).fresh_copy()
        self._x = to_arr(coords).fresh_copy()

    @property
    def species(self):
        from .lists import SList
        z = self._z
        return SList.symbolic(z.sh[0], lambda k: _Site(z.seq_at(k)))

    @property
    def cart_coords(self):
        return self._x.fresh_copy()
