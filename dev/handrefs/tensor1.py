F('core/tensor.py')
R('init-split','Tensor.__init__',('''
        assert rank_ids is not None
        self.setRankInfo(rank_ids, shape, default)
        self.setName(name)
        self.setColor(color)
        self.setMutable(True)
        if rank_ids == []:
            self._root = Payload(0)
            return
        root_fiber = Fiber()
        self.setRoot(root_fiber)
''','''
        assert rank_ids is not None
        self.setName(name)
        self.setColor(color)
        self.setMutable(True)
        self.setRankInfo(rank_ids, shape, default)
        if rank_ids != []:
            self.setRoot(Fiber())
        else:
            self._root = Payload(0)
'''))
R('mp-rev','Tensor.makePopulated',('''
        for size in reversed(shape):
            root = size * [root]
''','''
        for i in range(len(shape) - 1, -1, -1):
            root = [root] * shape[i]
'''))
R('ff-guard','Tensor.fromYAMLfile',('''
        if not isinstance(root, Fiber):
            t = Tensor(rank_ids=[], shape=shape, name=name)
            t.setMutable(False)
            t._root = Payload(root)
            return t
        return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)''','''
        if isinstance(root, Fiber):
            return Tensor.fromFiber(rank_ids, root, shape=shape, name=name)
        scalar = Tensor(rank_ids=[], shape=shape, name=name)
        scalar._root = Payload(root)
        scalar.setMutable(False)
        return scalar'''))
R('cs-slice','Tensor._calc_shape',('''
        shape = [len(ll)]
        if not isinstance(ll[0], list):
            return shape
        if len(ll) == 1:
            shape.extend(Tensor._calc_shape(ll[0]))
            return shape
        ll0 = Tensor._calc_shape(ll[0])
        ll1 = Tensor._calc_shape(ll[1:])[1:]
        rest = [max(a, b) for a, b in zip(ll0, ll1)]
        shape.extend(rest)
        return shape''','''
        if not isinstance(ll[0], list):
            return [len(ll)]
        first = Tensor._calc_shape(ll[0])
        if len(ll) == 1:
            return [len(ll)] + first
        others = Tensor._calc_shape(ll[1:])[1:]
        return [len(ll)] + [max(a, b) for a, b in zip(first, others)]'''))
R('ffib-ids','Tensor.fromFiber',('''
        if rank_ids is None:
            if shape is not None:
                maxrank = len(shape) - 1
            else:
                maxrank = fiber.getDepth() - 1
            rank_ids = [f'R{maxrank - i}' for i in range(maxrank + 1)]
''','''
        if rank_ids is None:
            num_ranks = len(shape) if shape is not None else fiber.getDepth()
            rank_ids = [f'R{num_ranks - 1 - i}' for i in range(num_ranks)]
'''))
R('ffib-rev','Tensor.fromFiber',('''
            rank_ids = [f'R{maxrank - i}' for i in range(maxrank + 1)]
''','''
            rank_ids = [f'R{i}' for i in range(maxrank, -1, -1)]
'''))
R('ffib-chain','Tensor.fromFiber',('''
        tensor.setMutable(False)
        return tensor''','''
        return tensor.setMutable(False)'''))
R('s2l','Tensor._shape2lists',('''
        if len(shape) > 1:
            subtree = Tensor._shape2lists(shape[1:])
        else:
            subtree = 0
        result = [subtree for _ in range(shape[0])]
        return result''','''
        subtree = Tensor._shape2lists(shape[1:]) if len(shape) > 1 else 0
        return [subtree] * shape[0]'''))
R('sri-loop','Tensor.setRankInfo',('''
        self.ranks = []
        last_rank = None
        for id, dimension in reversed(list(zip(rank_ids, shape))):
            new_rank = Rank(id=id, shape=dimension, next_rank=last_rank)
            self.ranks.insert(0, new_rank)
            last_rank = new_rank
''','''
        self.ranks = []
        next_rank = None
        for id, dimension in list(zip(rank_ids, shape))[::-1]:
            next_rank = Rank(id=id, shape=dimension, next_rank=next_rank)
            self.ranks.insert(0, next_rank)
'''))
R('sri-idx','Tensor.setRankInfo',('''
        for id, dimension in reversed(list(zip(rank_ids, shape))):
            new_rank = Rank(id=id, shape=dimension, next_rank=last_rank)
''','''
        for i in reversed(range(len(rank_ids))):
            new_rank = Rank(id=rank_ids[i], shape=shape[i], next_rank=last_rank)
'''))
R('gri-loop','Tensor.getRankIds',('''
        return [r.getId() for r in self.ranks]''','''
        ids = []
        for rank in self.ranks:
            ids.append(rank.getId())
        return ids'''))
R('ss-enum','Tensor.setShape',('''
        for rank, rank_shape in zip(self.ranks, shape):
            rank.getAttrs().setShape(rank_shape)''','''
        for i, rank in enumerate(self.ranks):
            rank.getAttrs().setShape(shape[i])'''))
R('gs-comp','Tensor.getShape',('''
        if isinstance(rank_ids, str):
            return_scalar = True
            rank_ids = [rank_ids]
        else:
            return_scalar = False
        if len''','''
        return_scalar = isinstance(rank_ids, str)
        if return_scalar:
            rank_ids = [rank_ids]
        if len'''),('''
        if len(rank_ids) == 0:
            requested_rank_ids = all_rank_ids
        else:
            requested_rank_ids = rank_ids
        shapes = []
        for rank_id in requested_rank_ids:
            rank_num = all_rank_ids.index(rank_id)
            shapes.append(all_shapes[rank_num])
        if return_scalar:
            return shapes[0]
        return shapes
''','''
        requested = rank_ids if len(rank_ids) > 0 else all_rank_ids
        shapes = [all_shapes[all_rank_ids.index(rank_id)] for rank_id in requested]
        return shapes[0] if return_scalar else shapes
'''))
R('gs-empty','Tensor.getShape',('''
        if len(self.ranks) == 0:
            return []
''','''
        if not self.ranks:
            return []
'''))
R('sr-order','Tensor.setRoot',('''
        self._root = root
        for r in self.ranks:
            r.clearFibers()
        self._addFiber(root)''','''
        for r in self.ranks:
            r.clearFibers()
        self._root = root
        self._addFiber(root)'''))
R('af-guard','Tensor._addFiber',('''
        if fiber_shape:
            attrs = self.ranks[level].getAttrs()
            rank_shape = attrs.getShape()
            if rank_shape:
                try:
                    attrs.setShape(max(fiber_shape, rank_shape))
                except Exception:
                    attrs.setShape(rank_shape)
            else:
                attrs.setShape(fiber_shape)
                attrs.setEstimatedShape(False)
        self.ranks[level].append(fiber)
        for p in fiber.getPayloads():
            if Payload.contains(p, Fiber):
                self._addFiber(Payload.get(p), level + 1)
''','''
        rank = self.ranks[level]
        if fiber_shape:
            attrs = rank.getAttrs()
            rank_shape = attrs.getShape()
            if not rank_shape:
                attrs.setShape(fiber_shape)
                attrs.setEstimatedShape(False)
            else:
                try:
                    attrs.setShape(max(fiber_shape, rank_shape))
                except Exception:
                    attrs.setShape(rank_shape)
        rank.append(fiber)
        for p in fiber.getPayloads():
            if not Payload.contains(p, Fiber):
                continue
            self._addFiber(Payload.get(p), level=level + 1)
'''))
R('af-helper','Tensor._addFiber',('''
        fiber_shape = fiber.getShape(authoritative=True, all_ranks=False)
        if fiber_shape:
            attrs = self.ranks[level].getAttrs()
            rank_shape = attrs.getShape()
            if rank_shape:
                try:
                    attrs.setShape(max(fiber_shape, rank_shape))
                except Exception:
                    attrs.setShape(rank_shape)
            else:
                attrs.setShape(fiber_shape)
                attrs.setEstimatedShape(False)
        self.ranks''','''
        self._growShape(fiber, self.ranks[level].getAttrs())
        self.ranks'''),('''
                self._addFiber(Payload.get(p), level + 1)
''','''
                self._addFiber(Payload.get(p), level + 1)

    def _growShape(self, fiber, attrs):
        fiber_shape = fiber.getShape(authoritative=True, all_ranks=False)
        if not fiber_shape:
            return
        rank_shape = attrs.getShape()
        if rank_shape:
            try:
                attrs.setShape(max(fiber_shape, rank_shape))
            except Exception:
                attrs.setShape(rank_shape)
        else:
            attrs.setShape(fiber_shape)
            attrs.setEstimatedShape(False)
'''))
R('fmt-helper','',('''
        rank_ids = self.getRankIds()
        self.ranks[rank_ids.index(rank_id)].setFormat(fmt)
''','''
        self._rankById(rank_id).setFormat(fmt)
'''),('''
        rank_ids = self.getRankIds()
        return self.ranks[rank_ids.index(rank_id)].getFormat()
''','''
        return self._rankById(rank_id).getFormat()

    def _rankById(self, rank_id):
        return self.ranks[self.getRankIds().index(rank_id)]
'''))
R('eq-if','Tensor.__eq__',('''
        rankid_match = self.getRankIds() == other.getRankIds()
        fiber_match = self.getRoot() == other.getRoot()
        return rankid_match and fiber_match''','''
        if self.getRankIds() != other.getRankIds():
            return False
        return self.getRoot() == other.getRoot()'''))
R('gp-tern','Tensor.getPayload',('''
        if isinstance(root, Payload):
            return root
        return root.getPayload(*args, **kwargs)''','''
        if not isinstance(root, Payload):
            root = root.getPayload(*args, **kwargs)
        return root'''))
R('upd-helper','',('''
        new_tensor = copy.deepcopy(self)
        new_tensor.getRoot().updateCoords(func, depth=depth, **kwargs)
        return new_tensor
''','''
        return self._applied(Fiber.updateCoords, func, depth, **kwargs)

    def _applied(self, method, func, depth, **kwargs):
        new_tensor = copy.deepcopy(self)
        method(new_tensor.getRoot(), func, depth=depth, **kwargs)
        return new_tensor
'''),('''
        new_tensor = copy.deepcopy(self)
        new_tensor.getRoot().updatePayloads(func, depth=depth, **kwargs)
        return new_tensor
''','''
        return self._applied(Fiber.updatePayloads, func, depth, **kwargs)
'''))
R('sg-depth','Tensor._splitGeneric',('''
        if 'rankid' in kwargs:
            depth = rank_ids.index(kwargs['rankid'])
        elif 'depth' in kwargs:
            depth = kwargs['depth']
        else:
            depth = 0
''','''
        if 'rankid' in kwargs:
            depth = rank_ids.index(kwargs['rankid'])
        else:
            depth = kwargs.get('depth', 0)
'''))
R('sg-slice','Tensor._splitGeneric',('''
        rank_ids[depth] = f'{id}.1'
        rank_ids.insert(depth + 1, f'{id}.0')
''','''
        rank_ids[depth:depth + 1] = [f'{id}.1', f'{id}.0']
'''))
R('sg-ids','Tensor._splitGeneric',('''
        rank_ids[depth] = f'{id}.1'
        rank_ids.insert(depth + 1, f'{id}.0')
''','''
        upper_id = id + '.1'
        lower_id = id + '.0'
        rank_ids[depth] = upper_id
        rank_ids.insert(depth + 1, lower_id)
'''),('''
            if rank_id == id + '.1':
                old_id = id
            elif rank_id == id + '.0':
                old_id = id
            else:
                old_id = rank_id
            tensor.setFormat(rank_id, self.getFormat(old_id))
''','''
            old_id = id if rank_id in (upper_id, lower_id) else rank_id
            tensor.setFormat(rank_id, self.getFormat(old_id))
'''))
R('finish','',('''
        tensor = Tensor.fromFiber(rank_ids, root, shape)
        tensor.setName(self.getName() + '+flattened')
        tensor.setColor(self.getColor())
        tensor.setMutable(self.isMutable())
        tensor.setDefault(self.getDefault())
        for rank_id in tensor.getRankIds():
            if rank_id in self.getRankIds():
                tensor.setFormat(rank_id, self.getFormat(rank_id))
            else:
                tensor.setFormat(rank_id, 'C')
        return tensor
''','''
        return self._derived(rank_ids, root, shape, '+flattened')
'''),('''
        tensor = Tensor.fromFiber(rank_ids, root, shape)
        tensor.setName(self.getName() + '+merged')
        tensor.setColor(self.getColor())
        tensor.setMutable(self.isMutable())
        tensor.setDefault(self.getDefault())
        for rank_id in tensor.getRankIds():
            if rank_id in self.getRankIds():
                tensor.setFormat(rank_id, self.getFormat(rank_id))
            else:
                tensor.setFormat(rank_id, 'C')
        return tensor
''','''
        return self._derived(rank_ids, root, shape, '+merged')
'''),('''
        tensor = Tensor.fromFiber(rank_ids, root, shape)
        tensor.setName(self.getName() + '+unflattened')
        tensor.setColor(self.getColor())
        tensor.setMutable(self.isMutable())
        tensor.setDefault(self.getDefault())
        for rank_id in tensor.getRankIds():
            if rank_id in self.getRankIds():
                tensor.setFormat(rank_id, self.getFormat(rank_id))
            else:
                tensor.setFormat(rank_id, 'C')
        return tensor
''','''
        return self._derived(rank_ids, root, shape, '+unflattened')

    def _derived(self, rank_ids, root, shape, suffix):
        tensor = Tensor.fromFiber(rank_ids, root, shape)
        tensor.setName(self.getName() + suffix)
        tensor.setColor(self.getColor())
        tensor.setMutable(self.isMutable())
        tensor.setDefault(self.getDefault())
        own_ids = self.getRankIds()
        for rank_id in tensor.getRankIds():
            fmt = self.getFormat(rank_id) if rank_id in own_ids else 'C'
            tensor.setFormat(rank_id, fmt)
        return tensor
'''))
R('attrs-order','Tensor.flattenRanks',('''
        tensor.setName(self.getName() + '+flattened')
        tensor.setColor(self.getColor())
        tensor.setMutable(self.isMutable())
        tensor.setDefault(self.getDefault())
''','''
        tensor.setDefault(self.getDefault())
        tensor.setMutable(self.isMutable())
        tensor.setColor(self.getColor())
        tensor.setName(self.getName() + '+flattened')
'''))
R('swz-guide','Tensor.swizzleRanks',('''
        guide = []
        for rank_id in rank_ids:
            guide.append(old_rank_ids.index(rank_id))
''','''
        guide = [old_rank_ids.index(rank_id) for rank_id in rank_ids]
'''))
R('swz-early','Tensor.swizzleRanks',('''
        old_name = self.getName()
        copied = copy.deepcopy(self)
        if old_rank_ids == rank_ids:
            copied.setName(f'{old_name}+swizzled')
            return copied
''','''
        swizzled_name = self.getName() + '+swizzled'
        copied = copy.deepcopy(self)
        if old_rank_ids == rank_ids:
            return copied.setName(swizzled_name)
'''),('''
        kwargs = {'name': f'{old_name}+swizzled',''','''
        kwargs = {'name': swizzled_name,'''))
R('swz-len','Tensor.swizzleRanks',('''
        for i, (old, new) in enumerate(zip(reversed(old_rank_ids), reversed(rank_ids))):
            if old != new:
                break
        swiz_len = len(rank_ids) - i
''','''
        swiz_len = len(rank_ids)
        while old_rank_ids[swiz_len - 1] == rank_ids[swiz_len - 1]:
            swiz_len -= 1
'''))
R('swz-same','Tensor.swizzleRanks',('''
            same = True
            for i, c in enumerate(coord[:-1]):
                same = same and c == last_coord[i]
                if not same:
                    child = Fiber()
''','''
            same = True
            for i, c in enumerate(coord[:-1]):
                if c != last_coord[i]:
                    same = False
                if not same:
                    child = Fiber()
'''))
R('swz-front','Tensor.swizzleRanks',('''
                new_c = tuple((frontier_coords[guide[i]] for i in range(swiz_len)))
                coords.append(new_c)
                payloads[new_c] = head
                continue
            for c, p in zip(head.coords, head.payloads):
                frontier.append((p, head, c, depth + 1))
''','''
                new_c = tuple([frontier_coords[g] for g in guide[:swiz_len]])
                coords.append(new_c)
                payloads[new_c] = head
            else:
                for c, p in zip(head.coords, head.payloads):
                    frontier.append((p, head, c, depth + 1))
'''))
R('swz-range','Tensor.swizzleRanks',('''
                starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
                start = min(starts)
                ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
                end = max(ends)
                fiber.setActive((start, end))
''','''
                first, last = fiber.coords[0], fiber.coords[-1]
                start = min(lo for lo, hi in rank_ranges if lo <= first < hi)
                end = max(hi for lo, hi in rank_ranges if lo <= last < hi)
                fiber.setActive((start, end))
'''))
R('swz-cont','Tensor.swizzleRanks',('''
            if not fiber.isEmpty() and rank_ranges:
                starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
                start = min(starts)
                ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
                end = max(ends)
                fiber.setActive((start, end))
                if isinstance(fiber.payloads[0], Fiber):
                    frontier.extend(fiber.payloads)
''','''
            if fiber.isEmpty() or not rank_ranges:
                continue
            starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
            ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
            fiber.setActive((min(starts), max(ends)))
            if isinstance(fiber.payloads[0], Fiber):
                frontier.extend(fiber.payloads)
'''))
R('swap-tuple','Tensor.swapRanks',('''
        id = rank_ids[depth]
        rank_ids[depth] = rank_ids[depth + 1]
        rank_ids[depth + 1] = id
''','''
        rank_ids[depth], rank_ids[depth + 1] = (rank_ids[depth + 1], rank_ids[depth])
'''))
R('swap-any','Tensor.swapRanks',('''
        if not all((fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
            root = self._modifyRoot(Fiber.swapRanks, Fiber.swapRanksBelow, depth=depth)
        else:
            root = copy.deepcopy(self.getRoot())
''','''
        if all((fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
            root = copy.deepcopy(self.getRoot())
        else:
            root = self._modifyRoot(Fiber.swapRanks, Fiber.swapRanksBelow, depth=depth)
'''))
R('swap-any2','Tensor.swapRanks',('''
        if not all((fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
''','''
        if any((not fiber.isEmpty() for fiber in self.ranks[depth].fibers)):
'''))
R('fl-ids','Tensor._flattenRankIdsShape',('''
        cur_rankid = rank_ids[depth]
        if not isinstance(cur_rankid, list):
            rank_ids[depth] = []
            rank_ids[depth].append(cur_rankid)
        for d in range(levels):
            next_rankid = rank_ids[depth + 1]
            if isinstance(next_rankid, list):
                rank_ids[depth] += next_rankid
            else:
                rank_ids[depth].append(next_rankid)
            del rank_ids[depth + 1]
''','''
        cur_rankid = rank_ids[depth]
        if not isinstance(cur_rankid, list):
            rank_ids[depth] = [cur_rankid]
        for _ in range(levels):
            next_rankid = rank_ids.pop(depth + 1)
            if isinstance(next_rankid, list):
                rank_ids[depth].extend(next_rankid)
            else:
                rank_ids[depth].append(next_rankid)
'''))
R('fl-or','Tensor._flattenRankIdsShape',('''
                if i < depth:
                    new_shape.append(shape)
                elif i > depth + levels:
                    new_shape.append(shape)
                elif coord_style == 'tuple':
''','''
                if i < depth or i > depth + levels:
                    new_shape.append(shape)
                elif coord_style == 'tuple':
'''))
R('fl-last','Tensor._flattenRankIdsShape',('''
            new_shape = []
            curr_shape = ()
''','''
            new_shape = []
            last = depth + levels
            curr_shape = ()
'''),('''
                if i < depth:
                    new_shape.append(shape)
                elif i > depth + levels:
                    new_shape.append(shape)
                elif coord_style == 'tuple':
                    curr_shape += (shape,)
                    if i == depth + levels:
                        new_shape.append(curr_shape)
''','''
                if not depth <= i <= last:
                    new_shape.append(shape)
                elif coord_style == 'tuple':
                    curr_shape = curr_shape + (shape,)
                    if i == last:
                        new_shape.append(curr_shape)
'''))
R('fl-lin','Tensor._flattenRankIdsShape',('''
                elif coord_style == 'absolute':
                    if i == depth + levels:
                        new_shape.append(shape)
                elif coord_style == 'relative':
                    if i == depth:
                        new_shape.append(shape)
                elif coord_style == 'linear':
                    if i == depth:
                        new_shape.append(shape)
                    else:
                        new_shape[-1] *= shape
''','''
                elif coord_style == 'linear':
                    if i != depth:
                        new_shape[-1] = new_shape[-1] * shape
                    else:
                        new_shape.append(shape)
                elif coord_style == 'absolute':
                    if i == depth + levels:
                        new_shape.append(shape)
                elif coord_style == 'relative':
                    if i == depth:
                        new_shape.append(shape)
'''))
R('uf-helper','Tensor._unflattenRankIdsShape',('''
        rank_ids = copy.deepcopy(self.getRankIds())
        for d in range(levels):
            id = rank_ids[depth + d]
            rank_ids[depth + d] = id[0]
            if len(id) == 2:
                rank_ids.insert(depth + d + 1, id[1])
            else:
                rank_ids.insert(depth + d + 1, id[1:])
        shape = copy.deepcopy(self.getShape())
        for d in range(levels):
            s = shape[depth + d]
            shape[depth + d] = s[0]
            if len(s) == 2:
                shape.insert(depth + d + 1, s[1])
            else:
                shape.insert(depth + d + 1, s[1:])
        return (rank_ids, shape)
''','''
        rank_ids = copy.deepcopy(self.getRankIds())
        shape = copy.deepcopy(self.getShape())
        for d in range(depth, depth + levels):
            self._peel(rank_ids, d)
            self._peel(shape, d)
        return (rank_ids, shape)

    @staticmethod
    def _peel(entries, pos):
        entry = entries[pos]
        entries[pos] = entry[0]
        entries.insert(pos + 1, entry[1] if len(entry) == 2 else entry[1:])
'''))
R('uf-tern','Tensor._unflattenRankIdsShape',('''
            id = rank_ids[depth + d]
            rank_ids[depth + d] = id[0]
            if len(id) == 2:
                rank_ids.insert(depth + d + 1, id[1])
            else:
                rank_ids.insert(depth + d + 1, id[1:])
''','''
            pos = depth + d
            id = rank_ids[pos]
            rest = id[1] if len(id) == 2 else id[1:]
            rank_ids[pos] = id[0]
            rank_ids.insert(pos + 1, rest)
'''))
R('mod-guard','Tensor._modifyRoot',('''
        root_copy = copy.deepcopy(self.getRoot())
        if depth == 0:
            root = func(root_copy, **kwargs)
        else:
            root = root_copy
            funcBelow(root, depth=depth - 1, **kwargs)
        return root''','''
        root = copy.deepcopy(self.getRoot())
        if depth == 0:
            return func(root, **kwargs)
        funcBelow(root, depth=depth - 1, **kwargs)
        return root'''))
R('parse-get','Tensor.parse',('''
        if 'shape' in y_tensor:
            shape = y_tensor['shape']
        else:
            shape = None
        if 'name' in y_tensor:
            name = y_tensor['name']
        else:
            name = ''
''','''
        shape = y_tensor.get('shape')
        name = y_tensor.get('name', '')
'''))
R('nl-comp','Tensor._nested_list2string',('''
        result = []
        for item in nested_list:
            if isinstance(item, list):
                result.append(self._nested_list2string(item))
            else:
                result.append(str(item))
        return '[' + ', '.join(result) + ']' ''','''
        parts = [self._nested_list2string(item) if isinstance(item, list) else str(item) for item in nested_list]
        return '[' + ', '.join(parts) + ']' '''))
