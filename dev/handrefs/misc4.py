F('model/format.py')
W('m4-elem','Format.getElem','''
def getElem(self, rank, type_):
    spec = self.spec[rank]
    if type_ == 'elem':
        return spec['cbits'] + spec['pbits']
    if type_ == 'coord':
        return spec['cbits']
    if type_ == 'payload':
        return spec['pbits']
    assert False
''')
W('m4-rank','Format.getRank','''
def getRank(self, rank_id):
    rank = self.tensor.ranks[self.tensor.getRankIds().index(rank_id)]
    return self.spec[rank_id]['rhbits'] + sum(self._getFiberFootprint(rank_id, fiber) for fiber in rank.getFibers())
''')
W('m4-rank2','Format.getRank','''
def getRank(self, rank_id):
    total = self.getRHBits(rank_id)
    for fiber in self._fibersOf(rank_id):
        total = total + self._getFiberFootprint(rank_id, fiber)
    return total

def _fibersOf(self, rank_id):
    i = self.tensor.getRankIds().index(rank_id)
    return self.tensor.ranks[i].getFibers()
''')
W('m4-sub','Format.getSubTree','''
def getSubTree(self, *coords):
    rank_ids = self.tensor.getRankIds()
    if len(coords) == len(rank_ids):
        return self.getElem(rank_ids[-1], 'elem')
    total = 0
    fibers = [self._getFiberFromCoords(*coords)]
    while fibers:
        fiber = fibers.pop()
        rank = fiber.getRankAttrs().getId()
        total += self._getFiberFootprint(rank, fiber)
        iter_ = fiber.iterShape() if self.spec[rank]['format'] == 'U' else fiber.iterOccupancy()
        fibers.extend(payload for _, payload in iter_ if isinstance(payload, Fiber))
    return total
''')
W('m4-sub2','Format.getSubTree','''
def getSubTree(self, *coords):
    if len(coords) == len(self.tensor.getRankIds()):
        leaf = self.spec[self.tensor.getRankIds()[-1]]
        return leaf['cbits'] + leaf['pbits']
    total = 0
    fibers = [self._getFiberFromCoords(*coords)]
    while len(fibers) != 0:
        fiber = fibers.pop()
        rank = fiber.getRankAttrs().getId()
        total += self._getFiberFootprint(rank, fiber)
        for payload in self._children(rank, fiber):
            if isinstance(payload, Fiber):
                fibers.append(payload)
    return total

def _children(self, rank, fiber):
    if self.spec[rank]['format'] == 'U':
        for _, payload in fiber.iterShape():
            yield payload
    else:
        for _, payload in fiber.iterOccupancy():
            yield payload
''')
W('m4-tensor','Format.getTensor','''
def getTensor(self):
    return self.getRoot() + sum([self.getRank(rank) for rank in self.tensor.getRankIds()])
''')
W('m4-foot','Format._getFiberFootprint','''
def _getFiberFootprint(self, rank, fiber):
    spec = self.spec[rank]
    num_elems = len(fiber) if spec['format'] == 'C' else fiber.getShape(all_ranks=False)
    return spec['fhbits'] + (spec['cbits'] + spec['pbits']) * num_elems
''')
F('model/compute.py')
W('m4-iters','Compute.numIters','''
@staticmethod
def numIters(trace):
    with open(trace, 'r') as f:
        f.readline()
        return sum(1 for _ in f)
''')
W('m4-iters2','Compute.numIters','''
@staticmethod
def numIters(trace):
    iters = 0
    with open(trace, 'r') as f:
        f.readline()
        line = f.readline()
        while line:
            iters += 1
            line = f.readline()
    return iters
''')
W('m4-ops','Compute.numOps','''
@staticmethod
def numOps(dump, op):
    compute = dump.get('Compute', {})
    return compute.get('payload_' + op, 0)
''')
W('m4-swaptree','Compute._numSwapsTree','''
@staticmethod
def _numSwapsTree(fiber, depth, radix, next_latency):
    if depth > 0:
        return sum(Compute._numSwapsTree(payload, depth - 1, radix, next_latency) for _, payload in fiber)
    swaps = 0
    coords = [sorted([-c for c in payload.getCoords()]) for _, payload in fiber]
    while len(coords) > 1:
        if radix == 'N' or radix > len(coords):
            radix = len(coords)
        new = []
        for i in range(0, len(coords), radix):
            ops, merged = Compute._merge(coords[i:min(i + radix, len(coords))], radix, next_latency)
            new.append(merged)
            swaps += ops
        coords = new
    return swaps
''')
W('m4-swaptree2','Compute._numSwapsTree','''
@staticmethod
def _mergeRound(coords, radix, next_latency):
    swaps = 0
    new = []
    for i in range(0, len(coords), radix):
        end = min(i + radix, len(coords))
        ops, merged = Compute._merge(coords[i:end], radix, next_latency)
        swaps += ops
        new.append(merged)
    return swaps, new

@staticmethod
def _numSwapsTree(fiber, depth, radix, next_latency):
    swaps = 0
    if depth > 0:
        for _, payload in fiber:
            swaps += Compute._numSwapsTree(payload, depth - 1, radix, next_latency)
        return swaps
    coords = []
    for _, payload in fiber:
        coords.append(sorted([-c for c in payload.getCoords()]))
    while len(coords) > 1:
        if radix == 'N' or radix > len(coords):
            radix = len(coords)
        ops, coords = Compute._mergeRound(coords, radix, next_latency)
        swaps += ops
    return swaps
''')
W('m4-merge','Compute._merge','''
@staticmethod
def _merge(coords, radix, next_latency):
    if isinstance(next_latency, int):
        merged = sorted(c for list_ in coords for c in list_)
        return (next_latency * (len(coords) + len(merged)), merged)
    return Compute._mergeByInsertion(coords)

@staticmethod
def _mergeByInsertion(coords):

    def insert(elem):
        j = bisect.bisect_right(head, elem)
        head.insert(j, elem)
        return len(head) - j
    head = []
    compares = 0
    for i, list_ in enumerate(coords):
        compares += insert((list_.pop(), i))
    merged = []
    while head:
        c, i = head.pop()
        merged.append(c)
        if coords[i]:
            compares += insert((coords[i].pop(), i))
    merged.sort()
    return (compares, merged)
''')
W('m4-merge2','Compute._merge','''
@staticmethod
def _merge(coords, radix, next_latency):
    if isinstance(next_latency, int):
        merged = []
        for list_ in coords:
            merged.extend(list_)
        merged.sort()
        return (next_latency * (len(coords) + len(merged)), merged)
    head = []
    compares = 0
    for i, list_ in enumerate(coords):
        elem = (list_.pop(), i)
        j = bisect.bisect_right(head, elem)
        compares += len(head) - j + 1
        head.insert(j, elem)
    merged = []
    while len(head) > 0:
        value, source = head.pop()
        merged.append(value)
        rest = coords[source]
        if len(rest) > 0:
            new = (rest.pop(), source)
            j = bisect.bisect_right(head, new)
            compares += len(head) - j + 1
            head.insert(j, new)
    merged.sort()
    return (compares, merged)
''')
F('core/rank.py')
W('m4-rshape','Rank.getShape','''
def getShape(self, all_ranks=True, authoritative=False):
    if authoritative and self._attrs.getEstimatedShape():
        return None
    own = self._attrs.getShape()
    if all_ranks == False:
        if own == 0:
            return self._widest()
        return own
    if own is None:
        own = 0 if len(self.fibers) == 0 else self._widest()
    shape = [own]
    if self.next_rank is not None:
        rest_of_shape = self.next_rank.getShape(all_ranks=True, authoritative=authoritative)
        if rest_of_shape is None:
            return None
        shape.extend(rest_of_shape)
    return shape

def _widest(self):
    return max([f.estimateShape(all_ranks=False) for f in self.fibers])
''')
W('m4-rappend','Rank.append','''
def append(self, fiber):
    fiber = Payload.get(fiber)
    if self._attrs.getEstimatedShape():
        self._growShape(fiber)
    fiber.setOwner(self)
    default = self.getDefault()
    if self.next_rank is not None:
        assert issubclass(default, Fiber), 'Non-leaf rank default should be Fiber (or Fiber subclass)'
    else:
        assert not (type(default) is type and issubclass(default, Fiber)), 'Leaf rank default should not be Fiber'
    self.fibers.append(fiber)

def _growShape(self, fiber):
    fiber.setOwner(None)
    old = self._attrs.getShape()
    new = fiber.getShape(all_ranks=False)
    if new == 0:
        return
    self._attrs.setShape(new if old is None else max(old, new))
''')
W('m4-rids','Rank.getRankIds','''
def getRankIds(self, all_ranks=True):
    rankids = [self.getId()]
    if not all_ranks or self.next_rank is None:
        return rankids
    return rankids + self.next_rank.getRankIds(all_ranks=True)
''')
F('core/payload.py')
W('m4-empty','Payload.isEmpty','''
@staticmethod
def isEmpty(p, default=0):
    if type(p).__name__ == 'Fiber':
        return p.isEmpty()
    return True if p == default else False
''')
W('m4-get','Payload.get','''
@staticmethod
def get(payload):
    return payload.value if isinstance(payload, Payload) else payload
''')
W('m4-add','Payload.__add__','''
def __add__(self, other):
    ans = self.value + Payload.get(Payload._element_value(other))
    if Metrics.isCollecting():
        Metrics.incCount('Compute', 'payload_add', 1)
    return Payload(ans)
''')
W('m4-iadd','Payload.__iadd__','''
def __iadd__(self, other):
    other = Payload._element_value(other)
    old = self.value
    self.value = old + (other.value if isinstance(other, Payload) else other)
    if not Metrics.isCollecting():
        return self
    Metrics.incCount('Compute', 'payload_update', 1)
    if old != 0:
        Metrics.incCount('Compute', 'payload_add', 1)
    return self
''')
F('core/rank_attrs.py')
W('m4-adef','RankAttrs.getDefault','''
def getDefault(self):
    assert self._default_is_set
    value = Payload.get(self._default)
    return Payload(value) if isinstance(value, int) else deepcopy(self._default)
''')
