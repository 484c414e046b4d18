F('core/tensor.py')
COPY='''
        tensor.setColor(self.getColor())
        tensor.setMutable(self.isMutable())
        tensor.setDefault(self.getDefault())
'''
def multi(i, *subs):
    s=''.join(l+'\n' for l in SPEC_LINES())
    for o,n,c in subs:
        o=o.strip('\n'); n=n.strip('\n')
        assert o in s, (i,o)
        s=s.replace(o,n) if c else s.replace(o,n,1)
    W(i,'',s)
import ast
import importlib
def SPEC_LINES():
    return F.__self__.lines
HELP='''
    def _copyAttrs(self, tensor):
        tensor.setColor(self.getColor())
        tensor.setMutable(self.isMutable())
        tensor.setDefault(self.getDefault())

    def swapRanks(self, depth=0):
'''
multi('t-copyattrs',(COPY,'        self._copyAttrs(tensor)\n',1),('    def swapRanks(self, depth=0):',HELP,0))
multi('t-copyattrs2',(COPY,'        Tensor._copyAttrs(self, tensor)\n',1),('    def swapRanks(self, depth=0):','''
    @staticmethod
    def _copyAttrs(src, dst):
        dst.setDefault(src.getDefault())
        dst.setColor(src.getColor())
        dst.setMutable(src.isMutable())

    def swapRanks(self, depth=0):
''',0))
FMT='''
        for rank_id in tensor.getRankIds():
            if rank_id in self.getRankIds():
                tensor.setFormat(rank_id, self.getFormat(rank_id))
            else:
                tensor.setFormat(rank_id, 'C')
'''
multi('t-copyfmt',(FMT,'        self._carryFormats(tensor)\n',1),('    def swapRanks(self, depth=0):','''
    def _carryFormats(self, tensor):
        known = self.getRankIds()
        for rank_id in tensor.getRankIds():
            fmt = self.getFormat(rank_id) if rank_id in known else 'C'
            tensor.setFormat(rank_id, fmt)

    def swapRanks(self, depth=0):
''',0))
R('t-flatres','Tensor.flattenRanks',('''
        tensor = Tensor.fromFiber(rank_ids, root, shape)
        tensor.setName(self.getName() + '+flattened')
        tensor.setColor(self.getColor())
        tensor.setMutable(self.isMutable())
        tensor.setDefault(self.getDefault())
        for rank_id in tensor.getRankIds():
            if rank_id in self.getRankIds():
                tensor.setFormat(rank_id, self.getFormat(rank_id))
            else:
                tensor.setFormat(rank_id, 'C')
        return tensor
''','''
        return self._finish(Tensor.fromFiber(rank_ids, root, shape), '+flattened')

    def _finish(self, result, suffix):
        result.setName(self.getName() + suffix)
        result.setColor(self.getColor())
        result.setMutable(self.isMutable())
        result.setDefault(self.getDefault())
        old_ids = self.getRankIds()
        for rid in result.getRankIds():
            if rid not in old_ids:
                result.setFormat(rid, 'C')
                continue
            result.setFormat(rid, self.getFormat(rid))
        return result
'''))
R('t-split-fmt','Tensor._splitGeneric',('''
        for rank_id in tensor.getRankIds():
            if rank_id == id + '.1':
                old_id = id
            elif rank_id == id + '.0':
                old_id = id
            else:
                old_id = rank_id
            tensor.setFormat(rank_id, self.getFormat(old_id))
''','''
        new_ids = (id + '.1', id + '.0')
        for rank_id in tensor.getRankIds():
            old_id = id if rank_id in new_ids else rank_id
            tensor.setFormat(rank_id, self.getFormat(old_id))
'''))
R('t-split-fmt2','Tensor._splitGeneric',('''
            if rank_id == id + '.1':
                old_id = id
            elif rank_id == id + '.0':
                old_id = id
            else:
                old_id = rank_id
            tensor.setFormat(rank_id, self.getFormat(old_id))
''','''
            if rank_id == f'{id}.1' or rank_id == f'{id}.0':
                source = self.getFormat(id)
            else:
                source = self.getFormat(rank_id)
            tensor.setFormat(rank_id, source)
'''))
R('t-split-depth','Tensor._splitGeneric',('''
        else:
            depth = 0
        id = rank_ids[depth]
        rank_ids[depth] = f'{id}.1'
        rank_ids.insert(depth + 1, f'{id}.0')
''','''
        else:
            depth = 0
        id = rank_ids[depth]
        rank_ids[depth:depth + 1] = [f'{id}.1', f'{id}.0']
'''))
R('t-split-depth2','Tensor._splitGeneric',('''
        if 'rankid' in kwargs:
            depth = rank_ids.index(kwargs['rankid'])
        elif 'depth' in kwargs:
            depth = kwargs['depth']
        else:
            depth = 0
''','''
        if 'rankid' in kwargs:
            depth = rank_ids.index(kwargs['rankid'])
        else:
            depth = kwargs.get('depth', 0)
'''))
R('t-swap','Tensor.swapRanks',('''
        id = rank_ids[depth]
        rank_ids[depth] = rank_ids[depth + 1]
        rank_ids[depth + 1] = id
''','''
        rank_ids[depth], rank_ids[depth + 1] = rank_ids[depth + 1], rank_ids[depth]
'''))
R('t-swap2','Tensor.swapRanks',('''
        if not all((fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
            root = self._modifyRoot(Fiber.swapRanks, Fiber.swapRanksBelow, depth=depth)
        else:
            root = copy.deepcopy(self.getRoot())
''','''
        if all((fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
            root = copy.deepcopy(self.getRoot())
        else:
            root = self._modifyRoot(Fiber.swapRanks, Fiber.swapRanksBelow, depth=depth)
'''))
R('t-swap3','Tensor.swapRanks',('''
        if not all((fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
''','''
        has_content = any((not fiber.isEmpty() for fiber in self.ranks[depth].fibers))
        if has_content:
'''))
R('t-swap4','Tensor.swapRanks',('''
        if not all((fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
''','''
        nonempty = False
        for fiber in self.ranks[depth].fibers:
            if not fiber.isEmpty():
                nonempty = True
                break
        if nonempty:
'''))
R('t-unfl','Tensor.unflattenRanks',('''
        if not all((fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
            root = self._modifyRoot(Fiber.unflattenRanks, Fiber.unflattenRanksBelow, depth=depth, levels=levels)
        else:
            root = Fiber()
''','''
        root = Fiber()
        if any((not f.isEmpty() for f in self.ranks[depth].fibers)):
            root = self._modifyRoot(Fiber.unflattenRanks, Fiber.unflattenRanksBelow, depth=depth, levels=levels)
'''))
R('t-mod','Tensor._modifyRoot',('''
        root_copy = copy.deepcopy(self.getRoot())
        if depth == 0:
            root = func(root_copy, **kwargs)
        else:
            root = root_copy
            funcBelow(root, depth=depth - 1, **kwargs)
        return root
''','''
        root = copy.deepcopy(self.getRoot())
        if depth == 0:
            return func(root, **kwargs)
        funcBelow(root, depth=depth - 1, **kwargs)
        return root
'''))
R('t-sync','Tensor.syncRankInfo',('''
        last_rank = None
        for rank in reversed(ranks):
            rank.set_next(last_rank)
            last_rank = rank
''','''
        last_rank = None
        for rank in ranks[::-1]:
            rank.set_next(last_rank)
            last_rank = rank
'''))
R('t-sync2','Tensor.syncRankInfo',('''
        last_rank = None
        for rank in reversed(ranks):
            rank.set_next(last_rank)
            last_rank = rank
''','''
        following = None
        for i in range(len(ranks) - 1, -1, -1):
            ranks[i].set_next(following)
            following = ranks[i]
'''))
R('t-setids','Tensor.setRankIds',('''
        rank = self._root.getOwner()
        for rank_id in rank_ids:
            rank.setId(rank_id)
            rank = rank.getNextRank()
        return self
''','''
        owner = self._root.getOwner()
        for new_id in rank_ids:
            current, owner = owner, owner.getNextRank()
            current.setId(new_id)
        return self
'''))
R('t-setroot','Tensor.setRoot',('''
        if root.getOwner() is not None:
            root = deepcopy(root.copy(preserve_owner=False))
        self._root = root
        for r in self.ranks:
            r.clearFibers()
        self._addFiber(root)
''','''
        if not root.getOwner() is None:
            disowned = root.copy(preserve_owner=False)
            root = deepcopy(disowned)
        for rank in self.ranks:
            rank.clearFibers()
        self._root = root
        self._addFiber(self._root)
'''))
R('t-ffib','Tensor.fromFiber',('''
        if rank_ids is None:
            if shape is not None:
                maxrank = len(shape) - 1
            else:
                maxrank = fiber.getDepth() - 1
            rank_ids = [f'R{maxrank - i}' for i in range(maxrank + 1)]
''','''
        if rank_ids is None:
            num_ranks = len(shape) if shape is not None else fiber.getDepth()
            rank_ids = [f'R{num_ranks - 1 - i}' for i in range(num_ranks)]
'''))
R('t-ffib2','Tensor.fromFiber',('''
            rank_ids = [f'R{maxrank - i}' for i in range(maxrank + 1)]
''','''
            rank_ids = [f'R{i}' for i in range(maxrank, -1, -1)]
'''))
R('t-ffib3','Tensor.fromFiber',('''
            rank_ids = [f'R{maxrank - i}' for i in range(maxrank + 1)]
''','''
            rank_ids = []
            for i in range(maxrank + 1):
                rank_ids.append('R' + str(maxrank - i))
'''))
R('t-ffib4','Tensor.fromFiber',('''
            rank_ids = [f'R{maxrank - i}' for i in range(maxrank + 1)]
''','''
            rank_ids = [f'R{i}' for i in reversed(range(maxrank + 1))]
'''))
R('t-fu','Tensor.fromUncompressed',('''
        fiber = Fiber.fromUncompressed(root, default=default)
        if shape is None:
            shape = Tensor._calc_shape(root)
        return Tensor.fromFiber(rank_ids, fiber, shape=shape, name=name, color=color, default=default)
''','''
        the_shape = shape if shape is not None else cls._calc_shape(root)
        return Tensor.fromFiber(rank_ids=rank_ids, fiber=Fiber.fromUncompressed(root, default=default), shape=the_shape, name=name, color=color, default=default)
'''))
R('t-dump','Tensor.dump',('''
        root = self.getRoot()
        if isinstance(root, Payload):
            root_dict = Payload.payload2dict(root)
        else:
            root_dict = root.fiber2dict()
        tensor_dict = {'tensor': {'rank_ids': self.getRankIds(), 'shape': self.getShape(), 'name': self.getName(), 'root': [root_dict]}}
''','''
        root = self.getRoot()
        root_dict = Payload.payload2dict(root) if isinstance(root, Payload) else root.fiber2dict()
        contents = dict(rank_ids=self.getRankIds(), shape=self.getShape(), name=self.getName(), root=[root_dict])
        tensor_dict = {'tensor': contents}
'''))
R('t-dump2','Tensor.dump',('''
        tensor_dict = {'tensor': {'rank_ids': self.getRankIds(), 'shape': self.getShape(), 'name': self.getName(), 'root': [root_dict]}}
''','''
        body = {}
        body['rank_ids'] = self.getRankIds()
        body['shape'] = self.getShape()
        body['name'] = self.getName()
        body['root'] = [root_dict]
        tensor_dict = {}
        tensor_dict['tensor'] = body
'''))
R('t-swz-kw','Tensor.swizzleRanks',('''
        kwargs = {'name': f'{old_name}+swizzled', 'rank_ids': rank_ids, 'default': self.getDefault(), 'fiber': root, 'color': self.getColor()}
        old_shape = self.getShape(authoritative=True)
        if old_shape:
            new_shape = [old_shape[guide[i]] for i in range(swiz_len)] + old_shape[swiz_len:]
            kwargs['shape'] = new_shape
        swizzled = Tensor.fromFiber(**kwargs)
''','''
        old_shape = self.getShape(authoritative=True)
        new_shape = None
        if old_shape:
            new_shape = [old_shape[guide[i]] for i in range(swiz_len)] + old_shape[swiz_len:]
        swizzled = Tensor.fromFiber(rank_ids=rank_ids, fiber=root, shape=new_shape, name=f'{old_name}+swizzled', color=self.getColor(), default=self.getDefault())
'''))
R('t-swz-guide','Tensor.swizzleRanks',('''
        guide = []
        for rank_id in rank_ids:
            guide.append(old_rank_ids.index(rank_id))
''','''
        guide = [old_rank_ids.index(rank_id) for rank_id in rank_ids]
'''),('''
            new_shape = [old_shape[guide[i]] for i in range(swiz_len)] + old_shape[swiz_len:]
''','''
            new_shape = [old_shape[g] for g in guide[:swiz_len]] + old_shape[swiz_len:]
'''))
R('t-swz-range','Tensor.swizzleRanks',('''
                starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
                start = min(starts)
                ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
                end = max(ends)
                fiber.setActive((start, end))
''','''
                first, last = fiber.coords[0], fiber.coords[-1]
                start = min((lo for lo, hi in rank_ranges if lo <= first < hi))
                end = max((hi for lo, hi in rank_ranges if lo <= last < hi))
                fiber.setActive((start, end))
'''))
R('t-swz-build','Tensor.swizzleRanks',('''
        while coords:
            coord = coords.pop()
            same = True
''','''
        for coord in reversed(coords):
            same = True
'''))
R('t-swz-help','Tensor.swizzleRanks',('''
        frontier = [swizzled.getRoot()]
        while frontier:
            fiber = frontier.pop()
            rank = fiber.getRankAttrs().getId()
            rank_ranges = ranges[rank]
            if not fiber.isEmpty() and rank_ranges:
                starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
                start = min(starts)
                ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
                end = max(ends)
                fiber.setActive((start, end))
                if isinstance(fiber.payloads[0], Fiber):
                    frontier.extend(fiber.payloads)
        return swizzled
''','''
        Tensor._restoreActive(swizzled.getRoot(), ranges)
        return swizzled

    @staticmethod
    def _restoreActive(root, ranges):
        frontier = [root]
        while frontier:
            fiber = frontier.pop()
            rank_ranges = ranges[fiber.getRankAttrs().getId()]
            if fiber.isEmpty() or not rank_ranges:
                continue
            starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
            ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
            fiber.setActive((min(starts), max(ends)))
            if isinstance(fiber.payloads[0], Fiber):
                frontier.extend(fiber.payloads)
'''))
