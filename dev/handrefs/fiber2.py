F('core/fiber.py')
# helper for active overlap
R('su-overlap','Fiber.splitUniform',('''
                        if part + self.step <= active_start:
                            part += self.step
                            continue
                        elif part >= active_end:
                            break
                        if part in upper''','''
                        if part >= active_end:
                            break
                        if part + self.step <= active_start:
                            part += self.step
                            continue
                        if part in upper'''))
R('su-for','Fiber.splitUniform',('''
                    while part < part_end:
                        if part + self.step <= active_start:
                            part += self.step
                            continue
                        elif part >= active_end:
                            break
                        if part in upper_coords[search_start:]:
                            i = upper_coords.index(part)
                        else:
                            i = len(upper_coords)
                            upper_coords.append(part)
                            lower_coords.append([])
                            lower_payloads.append([])
                        inds.append(i)
                        lower_coords[i].append(c)
                        lower_payloads[i].append(p)
                        part += self.step
''','''
                    for part in range(part, part_end, self.step):
                        if part + self.step <= active_start:
                            continue
                        if part >= active_end:
                            break
                        if part in upper_coords[search_start:]:
                            i = upper_coords.index(part)
                        else:
                            i = len(upper_coords)
                            upper_coords.append(part)
                            lower_coords.append([])
                            lower_payloads.append([])
                        inds.append(i)
                        lower_coords[i].append(c)
                        lower_payloads[i].append(p)
'''))
R('su-vars','Fiber.splitUniform',('''
                active_start, active_end = self.fiber.getActive()
                upper_coords''','''
                active_start, active_end = self.fiber.getActive()
                window_start = active_start - self.pre_halo
                window_end = active_end + self.post_halo
                upper_coords'''),('''
                    if c < active_start - self.pre_halo:
                        continue
                    if c >= active_end + self.post_halo:
                        break
''','''
                    if c < window_start:
                        continue
                    if c >= window_end:
                        break
'''))
R('su-build','Fiber.splitUniform',('''
                range_start = max(part, self.fiber.getActive()[0])
                range_end = min(part + self.step, self.fiber.getActive()[1])
                active_range = (range_start, range_end)
                return (part, coords, payloads, active_range)''','''
                active_start, active_end = self.fiber.getActive()
                return (part, coords, payloads, (max(active_start, part), min(active_end, part + self.step)))'''))
R('su-rank','Fiber.splitUniform',('''
        if rankid is not None:
            depth = self._rankid2depth(rankid)
        splitter = lambda f: _SplitterUniform(f, step, pre_halo, post_halo, relativeCoords)
        return self._splitGeneric(splitter, depth=depth)''','''
        def make_splitter(fiber):
            return _SplitterUniform(fiber, step, pre_halo, post_halo, relativeCoords)
        split_depth = depth if rankid is None else self._rankid2depth(rankid)
        return self._splitGeneric(make_splitter, depth=split_depth)'''))
R('su-floor','Fiber.splitUniform',('''
                    part = (c - self.post_halo) // self.step * self.step
                    part_end = (c + self.pre_halo) // self.step * self.step + self.step
''','''
                    part = self.step * ((c - self.post_halo) // self.step)
                    part_end = self.step * ((c + self.pre_halo) // self.step + 1)
'''))
R('su-helper','Fiber.splitUniform',('''
                    part = (c - self.post_halo) // self.step * self.step
                    part_end = (c + self.pre_halo) // self.step * self.step + self.step
''','''
                    part = self._align(c - self.post_halo)
                    part_end = self._align(c + self.pre_halo) + self.step
'''),('''
            def build_elem(self, part, coords, payloads):''','''
            def _align(self, coord):
                return coord // self.step * self.step

            def build_elem(self, part, coords, payloads):'''))
R('su-yield','Fiber.splitUniform',('''
                for uc, lc, lp in zip(upper_coords, lower_coords, lower_payloads):
                    yield self.build_elem(uc, lc, lp)
''','''
                for i in range(len(upper_coords)):
                    yield self.build_elem(upper_coords[i], lower_coords[i], lower_payloads[i])
'''))
R('su-empty','Fiber.splitUniform',('''
                if len(self.fiber) == 0:
                    return
                assert isinstance(self.fiber''','''
                if not self.fiber.coords:
                    return
                assert isinstance(self.fiber'''))
R('su-rel','Fiber.splitUniform',('''
                if relativeCoords:
                    coords = [c - part for c in coords]
''','''
                if self.relative:
                    coords = [c - part for c in coords]
'''))
R('sn-guard','Fiber._splitNonUniform_iter',('''
                        if self.splits[i + 1] <= active_start:
                            i += 1
                            continue
                        elif self.splits[i] >= active_end:
                            break
                        elif c >= self.add_post_halo(self.splits[i + 1]):
                            i += 1
                            continue
                        elif c < self.sub_pre_halo(self.splits[i]):
                            break
                        inds.append(i)
''','''
                        part_start, part_end = self.splits[i], self.splits[i + 1]
                        if part_end <= active_start:
                            i += 1
                            continue
                        if part_start >= active_end:
                            break
                        if c >= self.add_post_halo(part_end):
                            i += 1
                            continue
                        if c < self.sub_pre_halo(part_start):
                            break
                        inds.append(i)
'''))
R('sn-for','Fiber._splitNonUniform_iter',('''
                    i = search_start
                    inds = []
                    while i < len(splits):
                        if self.splits[i + 1] <= active_start:
                            i += 1
                            continue
                        elif self.splits[i] >= active_end:
                            break
                        elif c >= self.add_post_halo(self.splits[i + 1]):
                            i += 1
                            continue
                        elif c < self.sub_pre_halo(self.splits[i]):
                            break
                        inds.append(i)
                        lower_coords[i].append(c)
                        lower_payloads[i].append(p)
                        i += 1
''','''
                    inds = []
                    for i in range(search_start, len(splits)):
                        if self.splits[i + 1] <= active_start:
                            continue
                        if self.splits[i] >= active_end:
                            break
                        if c >= self.add_post_halo(self.splits[i + 1]):
                            continue
                        if c < self.sub_pre_halo(self.splits[i]):
                            break
                        inds.append(i)
                        lower_coords[i].append(c)
                        lower_payloads[i].append(p)
'''))
R('sn-first','Fiber._splitNonUniform_iter',('''
                    inds = []
                    while''','''
                    first_ind = None
                    while'''),('''
                        inds.append(i)
''','''
                        if first_ind is None:
                            first_ind = i
'''),('''
                    search_start = min(inds, default=search_start)
''','''
                    if first_ind is not None:
                        search_start = first_ind
'''))
R('sn-halo','Fiber._splitNonUniform_iter',('''
                if self.post_halo != 0:
                    return coord + self.post_halo
                return coord
''','''
                if self.post_halo == 0:
                    return coord
                return coord + self.post_halo
'''),('''
                if self.pre_halo != 0:
                    return coord - self.pre_halo
                return coord
''','''
                return coord - self.pre_halo if self.pre_halo else coord
'''))
R('sn-yield','Fiber._splitNonUniform_iter',('''
                for i, (lc, lp) in enumerate(zip(lower_coords, lower_payloads)):
                    if lc:
                        yield self.build_elem(i, lc, lp)
''','''
                for i in range(len(lower_coords)):
                    lc = lower_coords[i]
                    if len(lc) == 0:
                        continue
                    yield self.build_elem(i, lc, lower_payloads[i])
'''))
R('sn-build','Fiber._splitNonUniform_iter',('''
                if relative:
                    coords = [c - self.splits[ind] for c in coords]
                range_start = max(self.splits[ind], self.fiber.getActive()[0])
                range_end = min(self.splits[ind + 1], self.fiber.getActive()[1])
                active_range = (range_start, range_end)
                return (self.splits[ind], coords, payloads, active_range)
''','''
                part_start = self.splits[ind]
                part_end = self.splits[ind + 1]
                active_start, active_end = self.fiber.getActive()
                if relative:
                    coords = [c - part_start for c in coords]
                return (part_start, coords, payloads, (max(part_start, active_start), min(part_end, active_end)))
'''))
R('snu-coords','Fiber.splitNonUniform',('''
                if Payload.contains(splits, Fiber):
                    splits = splits.coords.copy()
                else:
                    splits = splits.copy()
                self.iter = fiber._splitNonUniform_iter(splits, pre_halo, post_halo, relative)
''','''
                source = splits.coords if Payload.contains(splits, Fiber) else splits
                self.iter = fiber._splitNonUniform_iter(source.copy(), pre_halo, post_halo, relative)
'''))
R('snu-all','Fiber.splitNonUniform',('''
        assert all((isinstance(split, int) for split in splits))
''','''
        for split in splits:
            assert isinstance(split, int)
'''))
R('se-comp','Fiber.splitEqual',('''
                splits = []
                for i, (c, _) in enumerate(fiber.iterActive(tick=False)):
                    if i == 0:
                        splits.append(fiber.getActive()[0])
                    elif i % step == 0:
                        splits.append(c)
''','''
                active_start = fiber.getActive()[0]
                splits = [active_start if i == 0 else c for i, (c, _) in enumerate(fiber.iterActive(tick=False)) if i % step == 0]
'''))
R('se-nested','Fiber.splitEqual',('''
                    if i == 0:
                        splits.append(fiber.getActive()[0])
                    elif i % step == 0:
                        splits.append(c)
''','''
                    if i % step != 0:
                        continue
                    if i == 0:
                        splits.append(fiber.getActive()[0])
                    else:
                        splits.append(c)
'''))
R('sue-order','Fiber.splitUnEqual',('''
                    if i == 0:
                        splits.append(fiber.getActive()[0])
                    elif i - base == sizes[j]:
                        base = i
                        j += 1
                        splits.append(c)
''','''
                    if i == 0:
                        splits.append(fiber.getActive()[0])
                        continue
                    if i - base != sizes[j]:
                        continue
                    splits.append(c)
                    base = i
                    j += 1
'''))
R('sue-next','Fiber.splitUnEqual',('''
                j = 0
                base = 0
                for i, (c, _) in enumerate(fiber.iterActive(tick=False)):
                    if j == len(sizes):
                        break
                    if i == 0:
                        splits.append(fiber.getActive()[0])
                    elif i - base == sizes[j]:
                        base = i
                        j += 1
                        splits.append(c)
''','''
                num_closed = 0
                last_start = 0
                for pos, (coord, _) in enumerate(fiber.iterActive(tick=False)):
                    if num_closed >= len(sizes):
                        break
                    if pos == 0:
                        splits.append(fiber.getActive()[0])
                    elif pos == last_start + sizes[num_closed]:
                        splits.append(coord)
                        last_start = pos
                        num_closed += 1
'''))
R('sg-else','Fiber._splitGeneric',('''
        if depth == 0:
            return fiber._splitFiber(splitter)
        fiber.updatePayloadsBelow(Fiber._splitFiber, splitter, depth=depth - 1)
        fiber.setOwner(None)
        return fiber''','''
        if depth > 0:
            fiber.updatePayloadsBelow(Fiber._splitFiber, splitter, depth=depth - 1)
            fiber.setOwner(None)
            return fiber
        return fiber._splitFiber(splitter)''')) if False else None
R('sg-lambda','Fiber._splitGeneric',('''
        fiber.updatePayloadsBelow(Fiber._splitFiber, splitter, depth=depth - 1)
''','''
        fiber.updatePayloads(lambda i, c, p: p._splitFiber(splitter), depth=depth - 1)
''')) 
R('sf-build','Fiber._splitFiber',('''
        upper = Fiber(default=Fiber(), active_range=self.getActive(), shape=shape)
        for part, coords, payloads, active_range in splitter(self):
            lower = Fiber(coords=coords, payloads=payloads, active_range=active_range, default=self.getDefault(), shape=shape)
            upper.coords.append(part)
            upper.payloads.append(lower)
        return upper''','''
        default = self.getDefault()
        upper = Fiber(default=Fiber(), active_range=self.getActive(), shape=shape)
        for part, coords, payloads, active_range in splitter(self):
            upper.coords.append(part)
            upper.payloads.append(Fiber(coords=coords, payloads=payloads, active_range=active_range, default=default, shape=shape))
        return upper'''))
R('sf-make','Fiber._splitFiber',('''
        upper = Fiber(default=Fiber(), active_range=self.getActive(), shape=shape)
        for part, coords, payloads, active_range in splitter(self):
            lower = Fiber(coords=coords, payloads=payloads, active_range=active_range, default=self.getDefault(), shape=shape)
            upper.coords.append(part)
            upper.payloads.append(lower)
        return upper
''','''
        upper = Fiber(default=Fiber(), active_range=self.getActive(), shape=shape)
        for part, coords, payloads, active_range in splitter(self):
            upper.coords.append(part)
            upper.payloads.append(self._makeLower(coords, payloads, active_range, shape))
        return upper

    def _makeLower(self, coords, payloads, active_range, shape):
        return Fiber(coords=coords, payloads=payloads, active_range=active_range, default=self.getDefault(), shape=shape)
'''))
R('sw-unzip','Fiber.swapRanks',('''
        sorted_cp = sorted([(c[::-1], p) for c, p in flattened])
        coords = [c for c, _ in sorted_cp]
        payloads = [p for _, p in sorted_cp]
        flattened_sorted = Fiber(coords, payloads, default=flattened.getDefault())
        swapped = flattened_sorted.unflattenRanks()
        return swapped''','''
        coords = []
        payloads = []
        for coord, payload in sorted([(c[::-1], p) for c, p in flattened]):
            coords.append(coord)
            payloads.append(payload)
        return Fiber(coords, payloads, default=flattened.getDefault()).unflattenRanks()'''))
R('fc-ret','Fiber._flattenCoords',('''
            c1_c0 = c1 + c0
        elif style == 'pair':
            c1_c0 = (c1, c0)
        elif style == 'absolute':
            c1_c0 = c0
        elif style == 'relative':
            c1_c0 = c1 + c0
        elif style == 'linear':
            assert shape is not None
            c1_c0 = c1 * shape + c0
        else:
            assert False, f'Supported coordinate styles are: tuple, pair, absolute, relative, and linear. Got: {style}'
        return c1_c0''','''
            return c1 + c0
        if style == 'pair':
            return (c1, c0)
        if style == 'absolute':
            return c0
        if style == 'relative':
            return c1 + c0
        if style == 'linear':
            assert shape is not None
            return c0 + c1 * shape
        assert False, f'Supported coordinate styles are: tuple, pair, absolute, relative, and linear. Got: {style}' '''))
R('fc-helper','Fiber._flattenCoords',('''
            if not isinstance(c1, tuple):
                c1 = (c1,)
            if not isinstance(c0, tuple):
                c0 = (c0,)
            c1_c0 = c1 + c0
''','''
            as_tuple = lambda c: c if isinstance(c, tuple) else (c,)
            c1_c0 = as_tuple(c1) + as_tuple(c0)
'''))
R('mr-else','Fiber.mergeRanks',('''
        if merge_fn is None:
            merge_fn = lambda ps: sum(ps)
        copied = copy.deepcopy(self)
        if depth == 0:
            return copied._mergeRanksHelper(levels=levels, style=style, merge_fn=merge_fn)
        copied.updatePayloadsBelow(Fiber._mergeRanksHelper, depth=depth - 1, levels=levels, style=style, merge_fn=merge_fn)
        copied.setOwner(None)
        return copied''','''
        copied = copy.deepcopy(self)
        if merge_fn is None:
            merge_fn = sum
        if depth != 0:
            copied.updatePayloadsBelow(Fiber._mergeRanksHelper, depth=depth - 1, levels=levels, style=style, merge_fn=merge_fn)
            copied.setOwner(None)
            return copied
        return copied._mergeRanksHelper(levels=levels, style=style, merge_fn=merge_fn)'''))
R('mr-kw','Fiber.mergeRanks',('''
        if depth == 0:
            return copied._mergeRanksHelper(levels=levels, style=style, merge_fn=merge_fn)
        copied.updatePayloadsBelow(Fiber._mergeRanksHelper, depth=depth - 1, levels=levels, style=style, merge_fn=merge_fn)
''','''
        args = {'levels': levels, 'style': style, 'merge_fn': merge_fn}
        if depth == 0:
            return copied._mergeRanksHelper(**args)
        copied.updatePayloadsBelow(Fiber._mergeRanksHelper, depth=depth - 1, **args)
'''))
R('mh-cur','Fiber._mergeRanksHelper',('''
        if levels == 1:
            cur_payloads = self.payloads
        elif not self.coords:
            cur_payloads = self.payloads
        else:
            assert Payload.contains(self.payloads[0], Fiber), 'Insuffient levels to merge'
            cur_payloads = []
            for p in self.payloads:
                cur_payloads.append(p._mergeRanksHelper(levels=levels - 1, style=style, merge_fn=merge_fn))
''','''
        cur_payloads = self.payloads
        if levels != 1 and self.coords:
            assert Payload.contains(self.payloads[0], Fiber), 'Insuffient levels to merge'
            cur_payloads = [p._mergeRanksHelper(levels=levels - 1, style=style, merge_fn=merge_fn) for p in self.payloads]
'''))
R('mh-range','Fiber._mergeRanksHelper',('''
            if i == 0:
                range_start, range_end = p1.getActive()
            else:
                range_start = min(range_start, p1.getActive()[0])
                range_end = max(range_end, p1.getActive()[1])
''','''
            p1_start, p1_end = p1.getActive()
            if i == 0:
                range_start = p1_start
                range_end = p1_end
            else:
                range_start = min(range_start, p1_start)
                range_end = max(range_end, p1_end)
'''))
R('mh-none','Fiber._mergeRanksHelper',('''
        for i, (c1, p1) in enumerate(zip(self.coords, cur_payloads)):
            if not Payload.contains(p1, Fiber):
                raise PayloadError
            if i == 0:
''','''
        for c1, p1 in zip(self.coords, cur_payloads):
            if not Payload.contains(p1, Fiber):
                raise PayloadError
            if range_start is None:
'''))
R('mh-shape','Fiber._mergeRanksHelper',('''
        shape = None
        if style == 'absolute' or style == 'relative':
            shape = low_shape
        elif up_shape and low_shape:
            if style == 'linear':
                shape = up_shape * low_shape
            elif style == 'pair':
                shape = (up_shape, low_shape)
            elif style == 'tuple':
                if isinstance(low_shape, tuple):
                    shape = (up_shape,) + low_shape
                else:
                    shape = (up_shape, low_shape)
''','''
        shape = Fiber._flattenShape(up_shape, low_shape, style)
'''),('''
        return Fiber(coords, merged_payloads, default=default, active_range=active_range, shape=shape)
''','''
        return Fiber(coords, merged_payloads, default=default, active_range=active_range, shape=shape)

    @staticmethod
    def _flattenShape(up_shape, low_shape, style):
        if style in ('absolute', 'relative'):
            return low_shape
        if not up_shape or not low_shape:
            return None
        if style == 'linear':
            return up_shape * low_shape
        if style == 'pair':
            return (up_shape, low_shape)
        if style == 'tuple':
            low = low_shape if isinstance(low_shape, tuple) else (low_shape,)
            return (up_shape,) + low
        return None
'''))
R('mh-active','Fiber._mergeRanksHelper',('''
        if style == 'tuple' or style == 'pair':
            active_range = ((self.getActive()[0], range_start), (self.getActive()[1], range_end))
        elif style == 'relative':
            active_range = self.getActive()
        elif style == 'absolute':
            active_range = self.getActive()
        elif style == 'linear':
''','''
        if style in ('tuple', 'pair'):
            up_start, up_end = self.getActive()
            active_range = ((up_start, range_start), (up_end, range_end))
        elif style in ('relative', 'absolute'):
            active_range = self.getActive()
        elif style == 'linear':
'''))
R('mh-insert','Fiber._mergeRanksHelper',('''
                if j < len(coords) and new_coord == coords[j]:
                    payloads[j].append(p0)
                else:
                    coords.insert(j, new_coord)
                    payloads.insert(j, [p0])
''','''
                found = j < len(coords) and coords[j] == new_coord
                if not found:
                    coords.insert(j, new_coord)
                    payloads.insert(j, [])
                payloads[j].append(p0)
'''))
R('mh-insert2','Fiber._mergeRanksHelper',('''
                if j < len(coords) and new_coord == coords[j]:
                    payloads[j].append(p0)
                else:
                    coords.insert(j, new_coord)
                    payloads.insert(j, [p0])
''','''
                if j == len(coords) or coords[j] != new_coord:
                    coords.insert(j, new_coord)
                    payloads.insert(j, [p0])
                else:
                    payloads[j].append(p0)
'''))
R('mt-guard','Fiber._mergeToFibertree',('''
        assert len(to_merge) > 0
        if len(to_merge) == 1:
            return to_merge[0]
        if not isinstance(to_merge[0], Fiber):
            return merge_fn(to_merge)
''','''
        assert to_merge
        head = to_merge[0]
        if len(to_merge) == 1:
            return head
        if not isinstance(head, Fiber):
            return merge_fn(to_merge)
'''))
R('mt-mask','Fiber._mergeToFibertree',('''
            mask, *all_ps = Payload.get(ps)
            new_merge = [p for i, p in enumerate(all_ps) if chr(ord('A') + i) in mask]
            payloads''','''
            union_payload = Payload.get(ps)
            mask = union_payload[0]
            new_merge = []
            for i, p in enumerate(union_payload[1:]):
                if chr(ord('A') + i) in mask:
                    new_merge.append(p)
            payloads'''))
R('mt-range','Fiber._mergeToFibertree',('''
        starts, ends = zip(*[fiber.getActive() for fiber in to_merge])
        shapes = [fiber.getShape(all_ranks=False, authoritative=True) for fiber in to_merge]
        return Fiber(coords, payloads, default=to_merge[0].getDefault(), shape=None if None in shapes else max(shapes), active_range=(min(starts), max(ends)))
''','''
        actives = [fiber.getActive() for fiber in to_merge]
        active_range = (min(a[0] for a in actives), max(a[1] for a in actives))
        shapes = [fiber.getShape(all_ranks=False, authoritative=True) for fiber in to_merge]
        shape = None
        if None not in shapes:
            shape = max(shapes)
        return Fiber(coords, payloads, default=to_merge[0].getDefault(), shape=shape, active_range=active_range)
'''))
R('un-helper','Fiber.unflattenRanks',('''
                    coords1.append(c1_last)
                    cur_fiber = Fiber(coords0, payloads0, default=self.getDefault(), shape=shape0)
                    if levels > 1:
                        cur_fiber = cur_fiber.unflattenRanks(levels=levels - 1)
                    payloads1.append(cur_fiber)
''','''
                    coords1.append(c1_last)
                    payloads1.append(self._makeLow(coords0, payloads0, shape0, levels))
'''),('''
        fiber0 = Fiber(coords0, payloads0, default=self.getDefault(), shape=shape0)
        if levels > 1:
            fiber0 = fiber0.unflattenRanks(levels=levels - 1)
        payloads1.append(fiber0)
        fiber1 = Fiber(coords1, payloads1, default=Fiber(), shape=shape1)
        return fiber1
''','''
        payloads1.append(self._makeLow(coords0, payloads0, shape0, levels))
        return Fiber(coords1, payloads1, default=Fiber(), shape=shape1)

    def _makeLow(self, coords, payloads, shape, levels):
        fiber = Fiber(coords, payloads, default=self.getDefault(), shape=shape)
        if levels > 1:
            fiber = fiber.unflattenRanks(levels=levels - 1)
        return fiber
'''))
R('un-c0','Fiber.unflattenRanks',('''
            c1 = cx[0]
            if len(cx) > 2:
                c0 = cx[1:]
            else:
                c0 = cx[1]
''','''
            c1 = cx[0]
            c0 = cx[1] if len(cx) <= 2 else cx[1:]
'''))
R('un-shape','Fiber.unflattenRanks',('''
        shape1 = None
        shape0 = None
        shape = self.getRankAttrs().getShape()
        if isinstance(shape, tuple):
            shape1 = shape[0]
            shape0 = shape[1:] if len(shape) > 2 else shape[1]
''','''
        shape = self.getRankAttrs().getShape()
        if isinstance(shape, tuple):
            shape1 = shape[0]
            if len(shape) > 2:
                shape0 = shape[1:]
            else:
                shape0 = shape[1]
        else:
            shape1 = None
            shape0 = None
'''))
R('un-first','Fiber.unflattenRanks',('''
            if first or c1 > c1_last:
                if not first:
                    coords1''','''
            if not first and c1 <= c1_last:
                pass
            else:
                if not first:
                    coords1'''))
R('tr-enum','Fiber.trace',('''
        for i, (c, p) in enumerate(self.__iter__(tick=False)):
            Metrics.addUse''','''
        i = -1
        for c, p in self.__iter__(tick=False):
            i += 1
            Metrics.addUse'''))
R('tr-dead','Fiber.trace',('''
                p.trace(trace_type, iteration_num=iteration_num)
                p_rank = p.getRankAttrs().getId()
            if iteration_num is not None:
                iteration_num[depth] += 1
            else:
                Metrics.incIter(rank)
''','''
                p.trace(trace_type, iteration_num=iteration_num)
            if iteration_num is None:
                Metrics.incIter(rank)
            else:
                iteration_num[depth] = iteration_num[depth] + 1
'''))
R('upb-def','Fiber.updatePayloadsBelow',('''
        update_lambda = lambda i, c, p: func(p, *args, **kwargs)
        return self.updatePayloads(update_lambda, depth=depth)''','''
        def update(_index, _coord, payload):
            return func(payload, *args, **kwargs)
        return self.updatePayloads(update, depth=depth)'''))
R('sria','Fiber._swapRanksIfAny',('''
        if self.isEmpty():
            return Fiber(default=Fiber())
        return self.swapRanks()''','''
        return self.swapRanks() if not self.isEmpty() else Fiber(default=Fiber())'''))
R('cp-split','Fiber.copy',('''
        if not preserve_owner:
            owners = self._detach_owner()
        copied = copy.deepcopy(self)
        if not preserve_owner:
            self._attach_owner(owners)
            copied._attach_attrs(owners)
        return copied''','''
        if preserve_owner:
            return copy.deepcopy(self)
        owners = self._detach_owner()
        copied = copy.deepcopy(self)
        self._attach_owner(owners)
        copied._attach_attrs(owners)
        return copied'''))
R('do-dict','Fiber._detach_owner',('''
        owners = {}
        owners[None] = self.getOwner()
''','''
        owners = {None: self.getOwner()}
'''))
R('aa-guard','Fiber._attach_attrs',('''
            if isinstance(p, Fiber):
                p._attach_attrs(owners[c])''','''
            if not isinstance(p, Fiber):
                continue
            p._attach_attrs(owners[c])'''))
R('eq-elif','Fiber.__eq__',('''
            if mask == 'A' and (not Payload.isEmpty(ps, default=self.getDefault())):
                return False
            if mask == 'B' and (not Payload.isEmpty(po, default=other.getDefault())):
                return False
            if mask == 'AB' and ps != po:
                return False
''','''
            if mask == 'A':
                same = Payload.isEmpty(ps, default=self.getDefault())
            elif mask == 'B':
                same = Payload.isEmpty(po, default=other.getDefault())
            else:
                same = not (mask == 'AB' and ps != po)
            if not same:
                return False
'''))
R('eq-default','Fiber.__eq__',('''
        for c, (mask, ps, po) in self | other:
            if mask == 'A' and (not Payload.isEmpty(ps, default=self.getDefault())):
                return False
            if mask == 'B' and (not Payload.isEmpty(po, default=other.getDefault())):
                return False
''','''
        self_default = self.getDefault()
        other_default = other.getDefault()
        for c, (mask, ps, po) in self | other:
            if mask == 'A' and (not Payload.isEmpty(ps, default=self_default)):
                return False
            if mask == 'B' and (not Payload.isEmpty(po, default=other_default)):
                return False
'''))
R('td-ceil','Fiber.__truediv__',('''
        return self.splitUniform((shape + partitions - 1) // partitions)''','''
        return self.splitUniform(-(-shape // partitions))'''))
R('shared-check','',('''
        assert not self.isLazy()
        assert isinstance(step, int)
        assert isinstance(pre_halo, int) and isinstance(post_halo, int)
        assert pre_halo >= 0 and post_halo >= 0
''','''
        self._checkSplit(pre_halo, post_halo)
        assert isinstance(step, int)
'''),('''
        assert not self.isLazy()
        assert all((isinstance(size, numbers.Number) for size in sizes))
        assert isinstance(pre_halo, int) and isinstance(post_halo, int)
        assert pre_halo >= 0 and post_halo >= 0
''','''
        self._checkSplit(pre_halo, post_halo)
        assert all((isinstance(size, numbers.Number) for size in sizes))
'''),('''
    def _rankid2depth(self, rankid):
''','''
    def _checkSplit(self, pre_halo, post_halo):
        assert not self.isLazy()
        for halo in (pre_halo, post_halo):
            assert isinstance(halo, int)
            assert halo >= 0

    def _rankid2depth(self, rankid):
'''))
