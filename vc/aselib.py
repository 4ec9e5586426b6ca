"""Assumed contracts of ase: an Atoms object holds copies of the positions, atomic numbers and cell it is given, in their order;
write() writes the images it is given (recorded in WRITES)."""
from . import terms as T
from .terms import Unsupported
from .arr import to_arr, dp, known
from .core import E

WRITES = []


class Atoms:
    def __init__(self, symbols=None, positions=None, numbers=None, cell=None, pbc=None, **k):
        if k or isinstance(symbols, (str, Atoms)):
            raise Unsupported("ase.Atoms with these arguments")
        if symbols is not None and numbers is not None:
            raise TypeError("Use only one of \"symbols\" and \"numbers\".")
        z = symbols if symbols is not None else numbers
        self._z = to_arr([] if z is None else z).fresh_copy()
        if positions is None:
            raise Unsupported("ase.Atoms without positions")
        self._x = to_arr(positions).fresh_copy()
        if len(self._z.sh) != 1 or len(self._x.sh) != 2 or self._x.sh[1] != 3:
            raise ValueError("wrong shape")
        if not known(T.eq(dp(self._z.sh[0]), dp(self._x.sh[0]))) and not E.branch(T.eq(dp(self._z.sh[0]), dp(self._x.sh[0]))):
            raise ValueError("Array \"positions\" has wrong length")
        self._cell = None if cell is None else to_arr(cell).fresh_copy()
        self._pbc = pbc

    @property
    def numbers(self):
        return self._z

    @property
    def positions(self):
        return self._x

    @property
    def cell(self):
        return self._cell

    def get_atomic_numbers(self):
        return self._z.fresh_copy()

    def get_positions(self):
        return self._x.fresh_copy()

    def get_cell(self):
        return self._cell.fresh_copy()

    def copy(self):
        return Atoms(symbols=self._z, positions=self._x, cell=self._cell, pbc=self._pbc)


def write(filename, images, *args, **kw):
    WRITES.append((filename, images, args, kw))


class Symbols:
    """symbols of atomic numbers; the text of one symbol is a function of its number, different for different numbers"""

    def __init__(self, numbers):
        self.numbers = to_arr(numbers)

    def s_str(self):
        if self.numbers.sh != (1,):
            raise Unsupported("the text of several symbols")
        return SymbolText(self.numbers.get((T.ZERO,)))


class SymbolText:
    """the symbol of one element"""

    def __init__(self, z):
        self.z = z

    def s_subst(self, mp):
        return SymbolText(T.subst(self.z, mp))
