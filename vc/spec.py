"""Registry of contracts (decided by proof) and scenarios (run-time contract evaluation on the real package)."""


class Item:
    def __init__(self, name, fn, **k):
        self.name, self.fn = name, fn
        self.__dict__.update(k)


class Registry:
    def __init__(self):
        self.proofs = []
        self.scenarios = []

    def proof(self, name, targets=(), con=40, budget=30.0, max_paths=400, setup=None, bounded=None, time=240.0):
        """targets: the functions under contract; con: concrete evaluations of the same contract in the quick tier;
        bounded: the stated bound when the contract is only checked up to a size"""
        def deco(f):
            self.proofs.append(Item(name, f, targets=tuple(targets), con=con, budget=budget, max_paths=max_paths, setup=setup,
                                    bounded=bounded, time=time))
            return f
        return deco

    def scenario(self, name, quick=40, thorough=400, cap=20.0):
        """cap: seconds in the quick tier"""
        def deco(f):
            self.scenarios.append(Item(name, f, quick=quick, thorough=thorough, cap=cap))
            return f
        return deco
