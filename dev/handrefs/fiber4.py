F('core/fiber.py')
W('f4-disown-guard','Fiber._disownPayload','''
def _disownPayload(self, payload):
    owner = self.getOwner()
    if owner is not None and isinstance(payload, Fiber):
        next_rank = owner.getNextRank()
        if next_rank is not None and payload.getOwner() is next_rank:
            for p in payload.payloads:
                payload._disownPayload(p)
            next_rank.remove(payload)
''')
W('f4-adopt-helper','Fiber._adoptPayload','''
def _listingRank(self, payload):
    if not isinstance(payload, Fiber):
        return None
    owner = self.getOwner()
    if owner is None:
        return None
    return owner.getNextRank()

def _adoptPayload(self, payload):
    rank = self._listingRank(payload)
    if rank is None or payload.getOwner() is rank:
        return
    rank.append(payload)
    for p in payload.payloads:
        payload._adoptPayload(p)
''')
W('f4-min','Fiber.minCoord','''
def minCoord(self):
    assert not self.isLazy()
    return min(self.coords) if self.coords else None
''')
W('f4-max','Fiber.maxCoord','''
def maxCoord(self):
    assert not self.isLazy()
    if self._max_coord is not None:
        return self._max_coord
    if not self.coords:
        return None
    return self.coords[-1] if self._ordered else max(self.coords)
''')
W('f4-max2','Fiber.maxCoord','''
def maxCoord(self):
    assert not self.isLazy()
    result = self._max_coord
    if result is None and len(self.coords) > 0:
        if self._ordered:
            result = self.coords[len(self.coords) - 1]
        else:
            result = max(self.coords)
    return result
''')
W('f4-count','Fiber.countValues','''
def countValues(self, recursive=True):
    assert not self.isLazy()
    count = 0
    for p in self.payloads:
        if recursive and Payload.contains(p, Fiber):
            count += Payload.get(p).countValues()
        elif not Payload.isEmpty(p, default=self.getDefault()):
            count += 1
    return count
''')
W('f4-count2','Fiber.countValues','''
def countValues(self, recursive=True):
    assert not self.isLazy()

    def count_one(p):
        if recursive and Payload.contains(p, Fiber):
            return Payload.get(p).countValues()
        return 0 if Payload.isEmpty(p, default=self.getDefault()) else 1
    return sum(count_one(p) for p in self.payloads)
''')
W('f4-empty','Fiber.isEmpty','''
def isEmpty(self):
    assert not self.isLazy()
    for p in self.payloads:
        if not Payload.isEmpty(p, default=self.getDefault()):
            return False
    return True
''')
W('f4-empty2','Fiber.isEmpty','''
def isEmpty(self):
    assert not self.isLazy()
    return not any(not Payload.isEmpty(p, default=self.getDefault()) for p in self.payloads)
''')
W('f4-getshape','Fiber.getShape','''
def getShape(self, all_ranks=True, authoritative=False):
    owner = self.getOwner()
    assert owner is not None or not all_ranks or (not authoritative)
    if owner is not None:
        shape = owner.getShape(all_ranks=all_ranks, authoritative=authoritative)
    else:
        shape = self._ownShape(all_ranks, authoritative)
    if shape is None and not authoritative:
        shape = self.estimateShape(all_ranks=all_ranks)
    return shape

def _ownShape(self, all_ranks, authoritative):
    shape = self.getRankAttrs().getShape()
    if not shape or not all_ranks:
        return shape
    rest = []
    for _, p in self:
        if isinstance(p, Fiber):
            for i, ns in enumerate(p.getShape(all_ranks=all_ranks, authoritative=authoritative)):
                if i < len(rest):
                    rest[i] = max(rest[i], ns)
                else:
                    rest.append(ns)
    return [shape] + rest
''')
W('f4-calc','Fiber._calcShape','''
def _calcShape(self, shape=None, level=0, all_ranks=True):
    shape = [] if shape is None else shape
    max_coord = self.maxCoord()
    first_visit = len(shape) < level + 1
    if len(self.coords) == 0:
        if first_visit:
            shape.append(0)
        return shape
    new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
    if first_visit:
        shape.append(new_shape)
    else:
        shape[level] = max(shape[level], new_shape)
    if not all_ranks or not Payload.contains(self.payloads[0], Fiber):
        return shape
    for p in self.payloads:
        shape = Payload.get(p)._calcShape(shape, level + 1)
    return shape
''')
W('f4-depth','Fiber.getDepth','''
def getDepth(self):
    assert not self.isLazy()
    owner = self.getOwner()
    if owner is None:
        return self._contentDepth()
    depth = 1
    while owner.next_rank is not None:
        owner = owner.next_rank
        depth += 1
    return depth

def _contentDepth(self):
    depth = 1
    fiber = self
    while fiber.payloads and isinstance(fiber.payloads[0], Fiber):
        fiber = fiber.payloads[0]
        depth += 1
    return depth
''')
W('f4-uncomp','Fiber.uncompress','''
def uncompress(self, shape=None, level=0):
    assert not self.isLazy()
    assert self._ordered and self._unique
    if shape is None:
        shape = self.getShape(all_ranks=True)
    f = []
    shape_fiber = Fiber(coords=list(range(shape[level])), initial=1)
    for c, (mask, p, _) in self | shape_fiber:
        if mask == 'AB':
            value = Payload.get(p)
            if Payload.contains(p, Fiber):
                value = value.uncompress(shape, level + 1)
            f.append(value)
        elif mask == 'B':
            f.append(self._fillempty(shape, level + 1))
    return f
''')
W('f4-fill','Fiber._fillempty','''
def _fillempty(self, shape, level):
    if level < len(shape):
        return [self._fillempty(shape, level + 1) for _ in range(shape[level])]
    f = self
    while f.payloads and isinstance(f.payloads[0], Fiber):
        f = f.payloads[0]
    default = f.getDefault()
    owner = f.getOwner()
    while owner is not None and owner.getNextRank() is not None:
        owner = owner.getNextRank()
        default = owner.getDefault()
    return Payload.get(default)
''')
W('f4-fill2','Fiber._fillempty','''
def _leafDefault(self):
    f = self
    while len(f.payloads) > 0 and isinstance(f.payloads[0], Fiber):
        f = f.payloads[0]
    default = f.getDefault()
    owner = f.getOwner()
    while owner is not None:
        next_rank = owner.getNextRank()
        if next_rank is None:
            break
        owner = next_rank
        default = owner.getDefault()
    return Payload.get(default)

def _fillempty(self, shape, level):
    if level + 1 > len(shape):
        return self._leafDefault()
    f = []
    for _ in range(shape[level]):
        f.append(self._fillempty(shape, level + 1))
    return f
''')
R('f4-snu-lambda','Fiber.splitNonUniform',('''
    splitter = lambda f: _SplitterNonUniform(f, splits, pre_halo, post_halo, relativeCoords)
        return self._splitGeneric(splitter, depth=depth)''','''
    def splitter(f):
            return _SplitterNonUniform(f, splits, pre_halo, post_halo, relativeCoords)
        return self._splitGeneric(splitter, depth=depth)'''),('assert pre_halo >= 0 and post_halo >= 0','assert pre_halo >= 0\n        assert post_halo >= 0'))
R('f4-snu-copy','Fiber.splitNonUniform',('''
                if Payload.contains(splits, Fiber):
                    splits = splits.coords.copy()
                else:
                    splits = splits.copy()
                self.iter = fiber._splitNonUniform_iter(splits, pre_halo, post_halo, relative)''','''
                bounds = splits.coords if Payload.contains(splits, Fiber) else splits
                self.iter = fiber._splitNonUniform_iter(bounds.copy(), pre_halo, post_halo, relative)'''))
R('f4-sue-nest','Fiber.splitUnEqual',('''
                    if i == 0:
                        splits.append(fiber.getActive()[0])
                    elif i - base == sizes[j]:
                        base = i
                        j += 1
                        splits.append(c)''','''
                    if i == 0:
                        splits.append(fiber.getActive()[0])
                        continue
                    if i - base != sizes[j]:
                        continue
                    splits.append(c)
                    base = i
                    j += 1'''))
R('f4-halo-helper','',('''
        assert isinstance(pre_halo, int) and isinstance(post_halo, int)
        assert pre_halo >= 0 and post_halo >= 0

        class _SplitterUnEqual:''','''
        Fiber._checkHalos(pre_halo, post_halo)

        class _SplitterUnEqual:'''),('''
    def splitUnEqual(self,''','''
    @staticmethod
    def _checkHalos(pre_halo, post_halo):
        for halo in (pre_halo, post_halo):
            assert isinstance(halo, int)
            assert halo >= 0

    def splitUnEqual(self,'''))
R('f4-halo-helper2','',('''
        assert isinstance(pre_halo, int) and isinstance(post_halo, int)
        assert pre_halo >= 0 and post_halo >= 0

        class _SplitterUnEqual:''','''
        _check_halos(pre_halo, post_halo)

        class _SplitterUnEqual:'''),('''
class Fiber:
''','''
def _check_halos(pre_halo, post_halo):
    assert isinstance(pre_halo, int) and isinstance(post_halo, int)
    assert min(pre_halo, post_halo) >= 0

class Fiber:
'''))
W('f4-r2d','Fiber._rankid2depth','''
def _rankid2depth(self, rankid):
    owner = self.getOwner()
    assert owner is not None, 'Rankids exist only for fibers in a tensor'
    return owner.getRankIds().index(rankid)
''')
R('f4-flat-lambda','Fiber.flattenRanks',('merge_fn=merge_fn','merge_fn=Fiber._noCollision'),('def merge_fn(ps):\n            raise ValueError',''),) if 0 else None
W('f4-flat','Fiber.flattenRanks','''
@staticmethod
def _refuseMerge(ps):
    raise ValueError

def flattenRanks(self, depth=0, levels=1, style='tuple'):
    return self.mergeRanks(depth=depth, levels=levels, style=style, merge_fn=Fiber._refuseMerge)
''')
W('f4-copy','Fiber.copy','''
def copy(self, preserve_owner=True):
    if preserve_owner:
        return copy.deepcopy(self)
    owners = self._detach_owner()
    copied = copy.deepcopy(self)
    self._attach_owner(owners)
    copied._attach_attrs(owners)
    return copied
''')
W('f4-eq','Fiber.__eq__','''
def __eq__(self, other):
    if not isinstance(other, Fiber):
        return False
    for c, (mask, ps, po) in self | other:
        if mask == 'AB':
            same = not ps != po
        elif mask == 'A':
            same = Payload.isEmpty(ps, default=self.getDefault())
        elif mask == 'B':
            same = Payload.isEmpty(po, default=other.getDefault())
        else:
            same = True
        if not same:
            return False
    return True
''')
W('f4-eq2','Fiber.__eq__','''
def __eq__(self, other):
    if not isinstance(other, Fiber):
        return False

    def differs(mask, ps, po):
        if mask == 'A':
            return not Payload.isEmpty(ps, default=self.getDefault())
        if mask == 'B':
            return not Payload.isEmpty(po, default=other.getDefault())
        return mask == 'AB' and ps != po
    return not any(differs(mask, ps, po) for _, (mask, ps, po) in self | other)
''')
W('f4-dict','Fiber.fiber2dict','''
def fiber2dict(self):
    assert not self.isLazy()
    payloads = []
    for p in self.payloads:
        payloads.append(Payload.payload2dict(p))
    return {'fiber': {'coords': self.coords, 'payloads': payloads}}
''')
W('f4-imul','Fiber.__imul__','''
def __imul__(self, other):
    assert not self.isLazy()
    if not isinstance(other, Fiber):
        for _, p in self:
            p *= other
        return self
    products = set()
    for c, (self_val, other_val) in self & other:
        ref = self.getPayloadRef(c)
        ref <<= self_val * other_val
        products.add(c)
    for pos in range(len(self.coords) - 1, -1, -1):
        if self.coords[pos] in products:
            continue
        self._disownPayload(self.payloads[pos])
        del self.coords[pos]
        del self.payloads[pos]
    return self
''')
W('f4-imul2','Fiber.__imul__','''
def __imul__(self, other):
    assert not self.isLazy()
    if isinstance(other, Fiber):
        products = set()
        for c, (self_val, other_val) in self & other:
            self_ref = self.getPayloadRef(c)
            self_ref <<= self_val * other_val
            products.add(c)
        self._dropExcept(products)
    else:
        for _, p in self:
            p *= other
    return self

def _dropExcept(self, kept):
    for pos in reversed(range(len(self.coords))):
        if self.coords[pos] not in kept:
            self._disownPayload(self.payloads[pos])
            del self.coords[pos]
            del self.payloads[pos]
''')
W('f4-iadd','Fiber.__iadd__','''
def __iadd__(self, other):
    assert not self.isLazy()
    if not isinstance(other, Fiber):
        for _, p in self.iterShapeRef():
            p += other
    else:
        for _, (self_ref, other_val) in self << other:
            self_ref += other_val
    return self
''')
W('f4-add','Fiber.__add__','''
def __add__(self, other):
    assert not self.isLazy()
    if isinstance(other, Fiber):
        pairs = [(c, self_val + other_val) for c, (_, self_val, other_val) in self | other]
    else:
        pairs = [(c, other + p.value) for c, p in self.iterShape()]
    return self._newFiber([c for c, _ in pairs], [p for _, p in pairs])
''')
W('f4-mul','Fiber.__mul__','''
def __mul__(self, other):
    assert not self.isLazy()
    coords = []
    payloads = []

    def put(c, p):
        coords.append(c)
        payloads.append(p)
    if isinstance(other, Fiber):
        for c, (a_val, b_val) in self & other:
            put(c, a_val * b_val)
    else:
        for c, p in self:
            put(c, other * p.value)
    return self._newFiber(coords, payloads)
''')
W('f4-ilshift','Fiber.__ilshift__','''
def __ilshift__(self, other):
    assert not self.isLazy()
    assert Payload.contains(other, Fiber)
    assert self._unique
    if self.coords:
        for payload in self.payloads:
            self._disownPayload(payload)
        self.coords, self.payloads = [], []
    self._setDefault(other.getDefault())
    for c, p in other:
        ref = self.getPayloadRef(c)
        ref <<= p
    return self
''')
W('f4-extend','Fiber.extend','''
def extend(self, other):
    assert not self.isLazy()
    assert Payload.contains(other, Fiber), 'Fibers can only be extended with another fiber'
    if not other.isEmpty():
        last = self.maxCoord()
        if self._ordered and last is not None:
            assert last < other.coords[0], "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
        self.coords += other.coords
        self.payloads += other.payloads
        for payload in other.payloads:
            self._adoptPayload(payload)
    return None
''')
W('f4-upd','Fiber.updatePayloads','''
def updatePayloads(self, func, depth=0, rankid=None):
    assert not self.isLazy()
    if rankid is not None:
        depth = self._rankid2depth(rankid)
    if depth > 0:
        for p in self.payloads:
            p.updatePayloads(func, depth=depth - 1)
        return None
    default = self.getDefault()
    for i in range(len(self.payloads)):
        p = self.payloads[i]
        if isinstance(p, Fiber) or not Payload.isEmpty(p, default=default):
            self.payloads[i] = Payload.maybe_box(func(i, self.coords[i], p))
    return None
''')
W('f4-prune','Fiber.prune','''
def prune(self, trans_fn=None, start_pos=None):
    if start_pos is not None:
        assert not self.isLazy()
        assert start_pos < len(self.coords)

    class prune_iterator:
        fiber = self
        start = start_pos

        def __iter__(self):
            i = 0
            for c, p in self.fiber.__iter__(tick=False, start_pos=self.start):
                if trans_fn(i, c, p):
                    yield (c, p)
                i += 1
    result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
    result._setDefault(self.getDefault())
    result.getRankAttrs().setId(self.getRankAttrs().getId())
    return result
''')
W('f4-prpos','Fiber.getPositionRef','''
def getPositionRef(self, coord, start_pos=None):
    assert not self.isLazy()
    start_pos = Payload.get(start_pos)
    index = self._coord2pos(coord, start_pos=start_pos)
    present = self._coordExists(coord, index)
    if not present:
        self._create_payload(coord)
    if index is not None and start_pos is not None:
        self.setSavedPos(index, distance=index - start_pos)
    return index
''')
W('f4-coord2pos','Fiber._coord2pos','''
def _coord2pos(self, coord, coords=None, start_pos=None):
    if coords is None:
        coords = self.coords
    if self._ordered and start_pos is None:
        return bisect.bisect_left(coords, coord)
    if self._ordered:
        for i in range(start_pos, len(coords)):
            if coords[i] >= coord:
                return i
        return len(coords)
    assert start_pos is None, 'Unordered fibers do not support `start pos`'
    for i, c in enumerate(coords):
        if c == coord:
            return i
    return len(coords)
''')
R('f4-getactive','Fiber.getActive',('''
    if self._active_range:
            return self._active_range
        shape = self.getRankAttrs().getShape()
        if not shape:
            shape = self.estimateShape(all_ranks=False)
        start''','''
    if not self._active_range:
            shape = self.getRankAttrs().getShape() or self.estimateShape(all_ranks=False)
            return (Fiber._transCoord(shape, lambda c: 0), shape)
        return self._active_range
        start'''))
R('f4-flat-mod','',('''
class Fiber:
''','''
def _refuse_merge(ps):
    raise ValueError

class Fiber:
'''),('''
        def merge_fn(ps):
            raise ValueError
        return self.mergeRanks(depth=depth, levels=levels, style=style, merge_fn=merge_fn)''','''
        return self.mergeRanks(depth=depth, levels=levels, style=style, merge_fn=_refuse_merge)'''))
R('f4-flat-bound','',('''
    def flattenRanks(self,''','''
    def _refuse(self, ps):
        raise ValueError

    def flattenRanks(self,'''),('''
        def merge_fn(ps):
            raise ValueError
        return self.mergeRanks(depth=depth, levels=levels, style=style, merge_fn=merge_fn)''','''
        return self.mergeRanks(depth=depth, levels=levels, style=style, merge_fn=self._refuse)'''))
R('f4-succ','',('''
class Fiber:
''','''
def _succ(c):
    return c + 1

class Fiber:
'''),('new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)','new_shape = Fiber._transCoord(max_coord, _succ)'))
