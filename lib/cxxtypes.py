"""Value types of the generated programs (harness/rt.h)."""

# name -> (C++ type, number of values, move only, not default-constructible)
OWN = {
    'int': ('int', 3, 0, 0), 'long': ('long', 3, 0, 0), 'double': ('double', 3, 0, 0), 'float': ('float', 3, 0, 0),
    'char': ('char', 3, 0, 0), 'bool': ('bool', 2, 0, 0), 'short': ('short', 3, 0, 0), 'ull': ('unsigned long long', 3, 0, 0),
    'str': ('std::string', 3, 0, 0), 'vec': ('std::vector<int>', 3, 0, 0), 'arr': ('std::array<int, 3>', 3, 0, 0),
    'uptr': ('std::unique_ptr<int>', 3, 1, 0), 'sptr': ('std::shared_ptr<int>', 3, 0, 0),
    'tup1': ('std::tuple<int>', 3, 0, 0), 'tup2': ('std::tuple<int, std::string>', 3, 0, 0),
    'tuptup': ('std::tuple<std::tuple<int>>', 3, 0, 0),
    'pair': ('std::pair<int, int>', 3, 0, 0), 'opt': ('std::optional<int>', 3, 0, 0), 'spy': ('rt::Spy', 3, 0, 0),
    'agg': ('rt::Agg', 3, 0, 0), 'enum': ('rt::Enum', 3, 0, 0), 'wide': ('rt::Wide', 3, 0, 0), 'final': ('rt::Final', 3, 0, 0),
    'base': ('rt::Base', 3, 0, 0), 'derived': ('rt::Derived', 3, 0, 0), 'virt': ('rt::Virt', 3, 0, 0), 'fun': ('rt::Fun', 3, 0, 0),
    'nodef': ('rt::NoDefault', 3, 0, 1), 'greedy': ('rt::Greedy', 3, 0, 0), 'ptr': ('const int *', 3, 0, 0),
    'tiny': ('rt::Tiny', 3, 0, 0), 'tri': ('rt::Tri', 3, 0, 0), 'pod': ('rt::Pod', 3, 0, 0), 'union': ('rt::Either', 3, 0, 0),
    'aligned': ('rt::Aligned', 3, 0, 0),
    'fptr': ('int (*)()', 3, 0, 0), 'func': ('std::function<int()>', 3, 0, 0),
}

# name -> (C++ type, identity, not default-constructible)
EMPTY = {
    'e1': ('rt::Empty<1>', 1, 0), 'e2': ('rt::Empty<2>', 2, 0), 'e3': ('rt::EmptyFun<3>', 3, 0),
    'e4': ('rt::EmptyDerived<4>', 4, 0), 'e5': ('rt::EmptyNoDefault<5>', 5, 1), 'e6': ('rt::EmptyManaged<6>', 6, 0), 'e42': ('rt::EmptyLambda', 42, 0),
}
