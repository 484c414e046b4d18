F('core/fiber.py')
R('gp-early','Fiber.getPayload',('''
        coord0 = coords[0]
        do_search = True
        const_used = False
        if isinstance(coord0, list) and len(coord0) == 1:
            coord0_point = coord0[0]
            if isinstance(coord0_point, tuple) and len(coord0_point) == 0:
                do_search = False
                existing = False
                index = start_pos
        if do_search:
            index = self._coord2pos(coord0, start_pos=start_pos)
            existing = self._coordExists(coord0, index)
''','''
        coord0 = coords[0]
        const_used = False
        is_empty_point = (isinstance(coord0, list) and len(coord0) == 1
                          and isinstance(coord0[0], tuple) and len(coord0[0]) == 0)
        if is_empty_point:
            index = start_pos
            existing = False
        else:
            index = self._coord2pos(coord0, start_pos=start_pos)
            existing = self._coordExists(coord0, index)
'''))
R('gp-helper','Fiber.getPayload',('''
        if existing:
            payload = self.payloads[index]
        elif allocate:
            payload = self._createDefault(addtorank=False)
            const_used = not isinstance(payload, Fiber)
        else:
            payload = Payload.maybe_box(default)
            const_used = True
''','''
        if existing:
            payload = self.payloads[index]
        else:
            payload, const_used = self._missingPayload(default, allocate)
'''),('''
        if start_pos is not None:
            if existing or index == 0:
                self.setSavedPos(index, distance=index - start_pos)
            else:
                self.setSavedPos(index - 1, distance=index - start_pos)
        return payload
''','''
        if start_pos is not None:
            distance = index - start_pos
            saved = index if existing or index == 0 else index - 1
            self.setSavedPos(saved, distance=distance)
        return payload

    def _missingPayload(self, default, allocate):
        if not allocate:
            return Payload.maybe_box(default), True
        payload = self._createDefault(addtorank=False)
        return payload, not isinstance(payload, Fiber)
'''))
R('gp-rest','Fiber.getPayload',('''
        if not const_used and len(coords) > 1:
            assert Payload.contains(payload, Fiber), 'getPayload too many coordinates'
            return payload.getPayload(*coords[1:], default=default, allocate=allocate, trace=trace)
''','''
        rest = coords[1:]
        if rest and not const_used:
            assert Payload.contains(payload, Fiber), 'getPayload too many coordinates'
            return payload.getPayload(*rest, default=default, allocate=allocate, trace=trace)
'''))
R('gp-const','Fiber.getPayload',('''
        const_used = False
''',''''''),('''
        if existing:
            payload = self.payloads[index]
        elif allocate:
            payload = self._createDefault(addtorank=False)
            const_used = not isinstance(payload, Fiber)
        else:
            payload = Payload.maybe_box(default)
            const_used = True
''','''
        if existing:
            payload = self.payloads[index]
            const_used = False
        elif not allocate:
            payload = Payload.maybe_box(default)
            const_used = True
        else:
            payload = self._createDefault(addtorank=False)
            const_used = not isinstance(payload, Fiber)
'''))
R('gpr-split','Fiber.getPayloadRef',('''
        index = self._coord2pos(coords[0], start_pos=start_pos)
        if self._coordExists(coords[0], index):
            payload = self.payloads[index]
        else:
            payload = self._create_payload(coords[0])
''','''
        coord, *rest = coords
        index = self._coord2pos(coord, start_pos=start_pos)
        exists = self._coordExists(coord, index)
        payload = self.payloads[index] if exists else self._create_payload(coord)
'''),('''
        if Metrics.isCollecting():
            Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
        if len(coords) > 1:
            assert Payload.contains(payload, Fiber), 'Too many coordinates'
            return payload.getPayloadRef(*coords[1:], trace=trace)
''','''
        if Metrics.isCollecting():
            Metrics.addUse(self.getRankAttrs().getId(), coord, index, type_=trace)
        if rest:
            assert Payload.contains(payload, Fiber), 'Too many coordinates'
            return payload.getPayloadRef(*rest, trace=trace)
'''))
R('gpr-pos','Fiber.getPayloadRef',('''
        if self._coordExists(coords[0], index):
            payload = self.payloads[index]
        else:
            payload = self._create_payload(coords[0])
''','''
        if not self._coordExists(coords[0], index):
            self._create_payload(coords[0])
        payload = self.payloads[index]
'''))
R('lookup-shared','',('''
    def getPosition(self, coord, start_pos=None):
        assert not self.isLazy()
        start_pos = Payload.get(start_pos)
        index = self._coord2pos(coord, start_pos=start_pos)
        if not self._coordExists(coord, index):
            index = None
''','''
    def _lookup(self, coord, start_pos):
        index = self._coord2pos(coord, start_pos=start_pos)
        return index, self._coordExists(coord, index)

    def getPosition(self, coord, start_pos=None):
        assert not self.isLazy()
        start_pos = Payload.get(start_pos)
        index, found = self._lookup(coord, start_pos)
        if not found:
            index = None
'''),('''
    def getPositionRef(self, coord, start_pos=None):
        assert not self.isLazy()
        start_pos = Payload.get(start_pos)
        index = self._coord2pos(coord, start_pos=start_pos)
        if not self._coordExists(coord, index):
            self._create_payload(coord)
''','''
    def getPositionRef(self, coord, start_pos=None):
        assert not self.isLazy()
        start_pos = Payload.get(start_pos)
        index, found = self._lookup(coord, start_pos)
        if not found:
            self._create_payload(coord)
'''),('''
        index = self._coord2pos(coords[0], start_pos=start_pos)
        if self._coordExists(coords[0], index):
            payload = self.payloads[index]
        else:
            payload = self._create_payload(coords[0])
''','''
        index, found = self._lookup(coords[0], start_pos)
        if found:
            payload = self.payloads[index]
        else:
            payload = self._create_payload(coords[0])
'''))
R('save-helper','',('''
        if start_pos is not None and index is not None:
            self.setSavedPos(index, distance=index - start_pos)
        return index

    def getPositionRef(self, coord, start_pos=None):
        assert not self.isLazy()
        start_pos = Payload.get(start_pos)
        index = self._coord2pos(coord, start_pos=start_pos)
        if not self._coordExists(coord, index):
            self._create_payload(coord)
        if start_pos is not None and index is not None:
            self.setSavedPos(index, distance=index - start_pos)
        return index
''','''
        self._savePos(index, start_pos)
        return index

    def _savePos(self, index, start_pos):
        if start_pos is None or index is None:
            return
        self.setSavedPos(index, distance=index - start_pos)

    def getPositionRef(self, coord, start_pos=None):
        assert not self.isLazy()
        start_pos = Payload.get(start_pos)
        index = self._coord2pos(coord, start_pos=start_pos)
        if not self._coordExists(coord, index):
            self._create_payload(coord)
        self._savePos(index, start_pos)
        return index
'''))
R('init-reorder','Fiber.__init__',('''
        self.coords = [coord for coord in coords]
        'The list of coordinates of the fiber'
        self.payloads = [Payload.maybe_box(p) for p in payloads]
''','''
        self.coords = list(coords)
        self.payloads = list(map(Payload.maybe_box, payloads))
'''),('''
        if rank_attrs is not None:
            self.setRankAttrs(rank_attrs)
        else:
            self.setRankAttrs(RankAttrs())
        if shape is not None:
            self.getRankAttrs().setShape(shape)
''','''
        self.setRankAttrs(RankAttrs() if rank_attrs is None else rank_attrs)
        attrs = self.getRankAttrs()
        if shape is not None:
            attrs.setShape(shape)
'''),('''
        self.getRankAttrs().setDefault(Payload.maybe_box(default))
''','''
        attrs.setDefault(Payload.maybe_box(default))
'''))
R('init-coords','Fiber.__init__',('''
        if coords is None:
            if payloads is None:
                coords = []
                payloads = []
            else:
                coords = list(range(len(payloads)))
        elif payloads is None:
            payloads = len(coords) * [initial]
''','''
        if coords is None and payloads is None:
            coords = []
            payloads = []
        elif coords is None:
            coords = range(len(payloads))
        elif payloads is None:
            payloads = [initial for _ in coords]
'''))
R('mk-single','Fiber._makeFiber',('''
        if isinstance(payload_list[0], list):
            size_check = len(payload_list[0])
            for p in payload_list:
                assert size_check == len(p), 'All lists must be the same length'
        zipped = [(c, p) for c, p in enumerate(payload_list) if p != default]
        if len(zipped) == 0:
            return None
        if isinstance(payload_list[0], list):
            coords = []
''','''
        nested = isinstance(payload_list[0], list)
        if nested:
            size = len(payload_list[0])
            assert all(len(p) == size for p in payload_list), 'All lists must be the same length'
        zipped = [(c, p) for c, p in enumerate(payload_list) if p != default]
        if not zipped:
            return None
        if nested:
            coords = []
'''))
R('mk-loop','Fiber._makeFiber',('''
        zipped = [(c, p) for c, p in enumerate(payload_list) if p != default]
        if len(zipped) == 0:
            return None
        if isinstance(payload_list[0], list):
            coords = []
            payloads = []
            for c, p in zipped:
                real_p = Fiber._makeFiber(p, default=default)
                if real_p is not None:
                    coords.append(c)
                    payloads.append(real_p)
        else:
            coords = [c for c, _ in zipped]
            payloads = [p for _, p in zipped]
        if len(coords) == 0:
            return None
''','''
        nested = isinstance(payload_list[0], list)
        coords = []
        payloads = []
        for c, p in enumerate(payload_list):
            if p == default:
                continue
            if nested:
                p = Fiber._makeFiber(p, default=default)
                if p is None:
                    continue
            coords.append(c)
            payloads.append(p)
        if not coords:
            return None
'''))
R('fu-tern','Fiber.fromUncompressed',('''
        f = Fiber._makeFiber(payload_list, default=default)
        if f is None:
            return Fiber([], [], shape=len(payload_list), default=default)
        return f
''','''
        fiber = Fiber._makeFiber(payload_list, default=default)
        if fiber is not None:
            return fiber
        return Fiber(shape=len(payload_list), default=default)
'''))
R('fr-flip','Fiber.fromRandom',('''
            if random.random() < density[0]:
                if len(shape) == 1:
                    payload = random.randint(1, interval)
                    if payload == default:
                        continue
                else:
                    payload = Fiber.fromRandom(shape[1:], density[1:], interval, default=default)
                    if payload.isEmpty():
                        continue
            else:
                if default == 0:
                    continue
                payload = 0
            coords.append(c)
            payloads.append(payload)
''','''
            if not random.random() < density[0]:
                if default != 0:
                    coords.append(c)
                    payloads.append(0)
                continue
            if len(shape) == 1:
                payload = random.randint(1, interval)
                skip = payload == default
            else:
                payload = Fiber.fromRandom(shape[1:], density[1:], interval, default=default)
                skip = payload.isEmpty()
            if not skip:
                coords.append(c)
                payloads.append(payload)
'''))
R('iu-flip','Fiber.iterUncompressed',('''
        index = 0
        max_index = len(self.coords) - 1
        shape = self.getShape(all_ranks=False)
        assert max_index == -1 or isinstance(self.coords[0], type(shape)), 'The type of coordinates must match type of shape'
        for c in self.iterShapeCoords():
            if index <= max_index and c == self.coords[index]:
                yield CoordPayload(c, self.payloads[index])
                index += 1
            else:
                p = self._createDefault(addtorank=False)
                yield CoordPayload(c, p)
''','''
        shape = self.getShape(all_ranks=False)
        occupancy = len(self.coords)
        assert occupancy == 0 or isinstance(self.coords[0], type(shape)), 'The type of coordinates must match type of shape'
        pos = 0
        for c in self.iterShapeCoords():
            present = pos < occupancy and self.coords[pos] == c
            if present:
                payload = self.payloads[pos]
            else:
                payload = self._createDefault(addtorank=False)
            yield CoordPayload(c, payload)
            if present:
                pos += 1
'''))
R('isc-else','Fiber.iterShapeCoords',('''
        if len(shape) == 1 and isinstance(shape[0], int):
            if start is None:
                start = 0
            if end is None:
                end = shape[0]
            for item in range(start, end, 1):
                yield item
            return
''','''
        if len(shape) == 1 and isinstance(shape[0], int):
            first = 0 if start is None else start
            last = shape[0] if end is None else end
            yield from range(first, last)
            return
'''))
R('cp-order','Fiber._create_payload',('''
        if pos is None:
            pos = self._coord2pos(coord)
        self.coords.insert(pos, coord)
        self.payloads.insert(pos, payload)
        payload = self.payloads[pos]
        assert Payload.is_payload(payload)
        return payload
''','''
        where = self._coord2pos(coord) if pos is None else pos
        self.payloads.insert(where, payload)
        self.coords.insert(where, coord)
        return self.payloads[where]
'''))
R('cp-ret','Fiber._create_payload',('''
        payload = self.payloads[pos]
        assert Payload.is_payload(payload)
        return payload
''','''
        return payload
'''))
R('pr-c0','Fiber.project',('''
        c0 = Fiber._transCoord(coord_ex, lambda c: 0)
        c1 = Fiber._transCoord(coord_ex, lambda c: 1)
        if trans_fn(c0) > trans_fn(c1):
''','''
        at_zero = trans_fn(Fiber._transCoord(coord_ex, lambda _: 0))
        at_one = trans_fn(Fiber._transCoord(coord_ex, lambda _: 1))
        descending = at_zero > at_one
        if descending:
'''))
R('pr-range','Fiber.project',('''
        if interval:
            min_, max_ = interval
        else:
            start = trans_fn(self.getActive()[0])
            end = trans_fn(Fiber._transCoord(self.getActive()[1], lambda c: c - 1))
            min_ = min(start, end)
            max_ = Fiber._transCoord(max(start, end), lambda c: c + 1)
        result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
''','''
        if not interval:
            active_start, active_end = self.getActive()
            start = trans_fn(active_start)
            end = trans_fn(Fiber._transCoord(active_end, lambda c: c - 1))
            low, high = (start, end) if start < end else (end, start)
            active_range = (low, Fiber._transCoord(high, lambda c: c + 1))
        else:
            active_range = (interval[0], interval[1])
        result = Fiber.fromIterator(project_iterator, active_range=active_range)
'''))
R('pr-iter','Fiber.project',('''
                for j, (old_c, p) in enumerate(fiter):
                    c = self.trans(old_c)
                    if self.interv is not None and c >= self.interv[1]:
                        break
                    if self.interv is None or (c >= self.interv[0] and c < self.interv[1]):
                        yield (c, p)
                        if traced:
                            Metrics.addUse(src_rank, old_c, i + j, type_=trace, iteration_num=iteration)
                            iteration = Metrics.getIter().copy()
''','''
                for j, (old_c, p) in enumerate(fiter):
                    c = self.trans(old_c)
                    if self.interv is not None:
                        low, high = self.interv
                        if c >= high:
                            break
                        if c < low:
                            continue
                    yield (c, p)
                    if traced:
                        Metrics.addUse(src_rank, old_c, i + j, type_=trace, iteration_num=iteration)
                        iteration = Metrics.getIter().copy()
'''))
R('pr-ex','Fiber.project',('''
        if coord_ex is None:
            if len(self) > 0:
                coord_ex, _ = next(self.iterOccupancy(tick=False), (0, None))
            else:
                coord_ex = 0
''','''
        if coord_ex is None:
            coord_ex = 0
            if len(self) > 0:
                coord_ex, _ = next(self.iterOccupancy(tick=False), (0, None))
'''))
R('prune-id','Fiber.prune',('''
        result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
        result._setDefault(self.getDefault())
        result.getRankAttrs().setId(self.getRankAttrs().getId())
        return result
''','''
        attrs = self.getRankAttrs()
        pruned = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
        pruned.getRankAttrs().setId(attrs.getId())
        pruned._setDefault(self.getDefault())
        return pruned
'''))
R('lazy-attrs','',('''
        result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
        result._setDefault(self.getDefault())
        result.getRankAttrs().setId(self.getRankAttrs().getId())
        return result
''','''
        result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
        self._copyAttrsTo(result)
        return result

    def _copyAttrsTo(self, result):
        result._setDefault(self.getDefault())
        result.getRankAttrs().setId(self.getRankAttrs().getId())
'''),('''
            fiber = Fiber.fromIterator(reversed_iterator)
            fiber._setDefault(self.getDefault())
            fiber.getRankAttrs().setId(self.getRankAttrs().getId())
''','''
            fiber = Fiber.fromIterator(reversed_iterator)
            self._copyAttrsTo(fiber)
'''))
R('ad-guard','Fiber._adoptPayload',('''
        owner = self.getOwner()
        if owner is None or not isinstance(payload, Fiber):
            return
        next_rank = owner.getNextRank()
        if next_rank is None or payload.getOwner() is next_rank:
            return
        next_rank.append(payload)
        for p in payload.payloads:
            payload._adoptPayload(p)
''','''
        owner = self.getOwner()
        if owner is not None and isinstance(payload, Fiber):
            next_rank = owner.getNextRank()
            if next_rank is not None and payload.getOwner() is not next_rank:
                next_rank.append(payload)
                for child in payload.payloads:
                    payload._adoptPayload(child)
'''))
R('ga-order','Fiber.getActive',('''
        if self._active_range:
            return self._active_range
        shape = self.getRankAttrs().getShape()
        if not shape:
            shape = self.estimateShape(all_ranks=False)
        start = Fiber._transCoord(shape, lambda c: 0)
        return (start, shape)
''','''
        if not self._active_range:
            end = self.getRankAttrs().getShape() or self.estimateShape(all_ranks=False)
            return (Fiber._transCoord(end, lambda c: 0), end)
        return self._active_range
'''))
R('gd-order','Fiber.getDefault',('''
        owner = self.getOwner()
        if owner is not None:
            return owner.getDefault()
        if len(self.payloads) > 0 and Payload.contains(self.payloads[0], Fiber):
            return Fiber
        return self.getRankAttrs().getDefault()
''','''
        owner = self.getOwner()
        if owner is None:
            has_fibers = bool(self.payloads) and Payload.contains(self.payloads[0], Fiber)
            return Fiber if has_fibers else self.getRankAttrs().getDefault()
        return owner.getDefault()
'''))
R('cd-expr','Fiber._createDefault',('''
        owner = self.getOwner()
        default = self.getDefault()
        a_payload = (self.payloads or [None])[0]
        if isinstance(a_payload, Fiber):
            next_default = a_payload.getDefault()
        else:
            next_default = None
        return Fiber._instantiateDefault(owner, default, next_default, addtorank)
''','''
        next_default = None
        if self.payloads and isinstance(self.payloads[0], Fiber):
            next_default = self.payloads[0].getDefault()
        return Fiber._instantiateDefault(self.getOwner(), self.getDefault(), next_default, addtorank=addtorank)
'''))
R('id-guard','Fiber._instantiateDefault',('''
        if callable(default):
            value = default()
            if Payload.contains(value, Fiber):
                if owner and owner.next_rank is not None:
                    if addtorank:
                        owner.next_rank.append(value)
                    else:
                        value.setOwner(owner.next_rank)
                else:
                    value._setDefault(next_default)
            else:
                assert False, 'Unsupported Payload type'
        else:
            assert not isinstance(default, Payload)
            value = default
        return Payload.maybe_box(value)
''','''
        if not callable(default):
            assert not isinstance(default, Payload)
            return Payload.maybe_box(default)
        value = default()
        assert Payload.contains(value, Fiber), 'Unsupported Payload type'
        next_rank = owner.next_rank if owner else None
        if next_rank is None:
            value._setDefault(next_default)
        elif addtorank:
            next_rank.append(value)
        else:
            value.setOwner(next_rank)
        return Payload.maybe_box(value)
'''))
R('mc-guard','Fiber.maxCoord',('''
        if self._max_coord is not None:
            return self._max_coord
        if len(self.coords) == 0:
            return None
        if self._ordered:
            return self.coords[-1]
        else:
            return max(self.coords)
''','''
        if self._max_coord is not None:
            return self._max_coord
        if not self.coords:
            return None
        return self.coords[-1] if self._ordered else max(self.coords)
'''))
R('cv-sum','Fiber.countValues',('''
        count = 0
        for p in self.payloads:
            if recursive and Payload.contains(p, Fiber):
                count += Payload.get(p).countValues()
            else:
                count += 1 if not Payload.isEmpty(p, default=self.getDefault()) else 0
        return count
''','''
        total = 0
        for p in self.payloads:
            if recursive and Payload.contains(p, Fiber):
                total += Payload.get(p).countValues()
            elif not Payload.isEmpty(p, default=self.getDefault()):
                total += 1
        return total
'''))
R('cv-sumfn','Fiber.countValues',('''
        count = 0
        for p in self.payloads:
            if recursive and Payload.contains(p, Fiber):
                count += Payload.get(p).countValues()
            else:
                count += 1 if not Payload.isEmpty(p, default=self.getDefault()) else 0
        return count
''','''
        default = self.getDefault()

        def count_one(p):
            if recursive and Payload.contains(p, Fiber):
                return Payload.get(p).countValues()
            return 0 if Payload.isEmpty(p, default=default) else 1
        return sum(count_one(p) for p in self.payloads)
'''))
R('gi-slice','Fiber.__getitem__',('''
        if not isinstance(keys, tuple):
            key = keys
            key_cdr = ()
        else:
            key = keys[0]
            key_cdr = keys[1:]
        if isinstance(key, int):
            if key < 0:
                key += len(self)
            if key < 0 or key >= len(self):
                raise IndexError(f'The index ({key}) is out of range')
''','''
        if isinstance(keys, tuple):
            key, key_cdr = keys[0], keys[1:]
        else:
            key, key_cdr = keys, ()
        if isinstance(key, int):
            occupancy = len(self)
            if key < 0:
                key += occupancy
            if not 0 <= key < occupancy:
                raise IndexError('The index (%d) is out of range' % key)
'''),('''
            coords = [self.coords[ii] for ii in slice_range]
            if len(key_cdr):
                payloads = [self.payloads[ii][key_cdr] for ii in slice_range]
            else:
                payloads = [self.payloads[ii] for ii in slice_range]
            return Fiber(coords, payloads)
''','''
            coords = []
            payloads = []
            for ii in slice_range:
                payload = self.payloads[ii]
                coords.append(self.coords[ii])
                payloads.append(payload[key_cdr] if key_cdr else payload)
            return Fiber(coords, payloads)
'''))
R('si-pos','Fiber.__setitem__',('''
            if self._ordered:
                if position > 0 and coord <= self.coords[position - 1]:
                    raise CoordinateError
                if position + 1 < len(self.coords) and coord >= self.coords[position + 1]:
                    raise CoordinateError
            self.coords[position] = coord
''','''
            if self._ordered:
                after_prev = position <= 0 or self.coords[position - 1] < coord
                if not after_prev:
                    raise CoordinateError
                before_next = position + 1 >= len(self.coords) or coord < self.coords[position + 1]
                if not before_next:
                    raise CoordinateError
            self.coords[position] = coord
'''),('''
            old_payload = self.payloads[position]
            new_payload = Payload.maybe_box(payload)
            self.payloads[position] = new_payload
            if new_payload is not old_payload:
                self._disownPayload(old_payload)
                self._adoptPayload(new_payload)
''','''
            new_payload = Payload.maybe_box(payload)
            old_payload, self.payloads[position] = self.payloads[position], new_payload
            if old_payload is new_payload:
                return
            self._disownPayload(old_payload)
            self._adoptPayload(new_payload)
'''))
R('len-sum','Fiber.__len__',('''
        if self.isLazy():
            len_ = 0
            for _ in self.iterOccupancy(tick=False):
                len_ += 1
            return len_
        else:
            return len(self.coords)
''','''
        if not self.isLazy():
            return len(self.coords)
        return sum(1 for _ in self.iterOccupancy(tick=False))
'''))
R('empty-gen','Fiber.isEmpty',('''
        return all(map(lambda p: Payload.isEmpty(p, default=self.getDefault()), self.payloads))
''','''
        for p in self.payloads:
            if not Payload.isEmpty(p, default=self.getDefault()):
                return False
        return True
'''))
R('empty-any','Fiber.isEmpty',('''
        return all(map(lambda p: Payload.isEmpty(p, default=self.getDefault()), self.payloads))
''','''
        default = self.getDefault()
        return not any(not Payload.isEmpty(p, default=default) for p in self.payloads)
'''))
R('ne-cont','Fiber.nonEmpty',('''
            if not Payload.isEmpty(p, default=self.getDefault()):
                coords.append(c)
                if Payload.contains(p, Fiber):
                    payloads.append(p.nonEmpty())
                else:
                    payloads.append(p)
''','''
            if Payload.isEmpty(p, default=self.getDefault()):
                continue
            kept = p.nonEmpty() if Payload.contains(p, Fiber) else p
            coords.append(c)
            payloads.append(kept)
'''))
R('app-max','Fiber.append',('''
        if self._ordered:
            assert self.maxCoord() is None or self.maxCoord() < coord, "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
        payload = Payload.maybe_box(value)
        self.coords.append(coord)
        self.payloads.append(payload)
        self._adoptPayload(payload)
''','''
        self._checkAfter(coord)
        payload = Payload.maybe_box(value)
        self.payloads.append(payload)
        self.coords.append(coord)
        self._adoptPayload(payload)

    def _checkAfter(self, coord):
        if not self._ordered:
            return
        last = self.maxCoord()
        assert last is None or last < coord, "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
'''))
R('ext-loop','Fiber.extend',('''
        self.coords.extend(other.coords)
        self.payloads.extend(other.payloads)
        for payload in other.payloads:
            self._adoptPayload(payload)
        return None
''','''
        self.coords += other.coords
        self.payloads += other.payloads
        for payload in other.payloads:
            self._adoptPayload(payload)
'''))
R('uc-enum','Fiber.updateCoords',('''
        no_sort_needed = True
        last_coord = None
        for i in range(len(self.coords)):
            new_coord = func(i, self.coords[i], self.payloads[i])
            self.coords[i] = new_coord
            no_sort_needed = no_sort_needed and (last_coord is None or last_coord <= new_coord)
            last_coord = new_coord
        if self._ordered and (not no_sort_needed):
            zipped_cp = zip(self.coords, self.payloads)
            sorted_cp = sorted(zipped_cp, key=lambda cp: cp[0])
            self.coords, self.payloads = [list(tuple) for tuple in zip(*sorted_cp)]
''','''
        sort_needed = False
        last_coord = None
        for i in range(len(self.coords)):
            new_coord = func(i, self.coords[i], self.payloads[i])
            self.coords[i] = new_coord
            if last_coord is not None and new_coord < last_coord:
                sort_needed = True
            last_coord = new_coord
        if self._ordered and sort_needed:
            sorted_cp = sorted(zip(self.coords, self.payloads), key=lambda cp: cp[0])
            self.coords = [c for c, _ in sorted_cp]
            self.payloads = [p for _, p in sorted_cp]
'''))
R('up-cont','Fiber.updatePayloads',('''
        if depth > 0:
            for p in self.payloads:
                p.updatePayloads(func, depth=depth - 1)
        else:
            default = self.getDefault()
            for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
                if isinstance(p, Fiber) or not Payload.isEmpty(p, default=default):
                    self.payloads[i] = Payload.maybe_box(func(i, c, p))
        return None
''','''
        if depth > 0:
            for p in self.payloads:
                p.updatePayloads(func, depth=depth - 1)
            return None
        default = self.getDefault()
        for i in range(len(self.coords)):
            p = self.payloads[i]
            if not isinstance(p, Fiber) and Payload.isEmpty(p, default=default):
                continue
            self.payloads[i] = Payload.maybe_box(func(i, self.coords[i], p))
        return None
'''))
R('gs-split','Fiber.getShape',('''
        if owner is not None:
            shape = owner.getShape(all_ranks=all_ranks, authoritative=authoritative)
        else:
            shape = self.getRankAttrs().getShape()
            if shape and all_ranks:
                rest = []
                for _, p in self:
                    if not isinstance(p, Fiber):
                        continue
                    new_shape = p.getShape(all_ranks=all_ranks, authoritative=authoritative)
                    for i, ns in enumerate(new_shape):
                        if i >= len(rest):
                            rest.append(ns)
                        else:
                            rest[i] = max(rest[i], ns)
                shape = [shape] + rest
        if shape is not None or authoritative:
            return shape
        shape = self.estimateShape(all_ranks=all_ranks)
        return shape
''','''
        if owner is not None:
            shape = owner.getShape(all_ranks=all_ranks, authoritative=authoritative)
        else:
            shape = self.getRankAttrs().getShape()
            if shape and all_ranks:
                shape = [shape] + self._restShape(all_ranks, authoritative)
        if shape is None and not authoritative:
            shape = self.estimateShape(all_ranks=all_ranks)
        return shape

    def _restShape(self, all_ranks, authoritative):
        rest = []
        for _, p in self:
            if isinstance(p, Fiber):
                sub_shape = p.getShape(all_ranks=all_ranks, authoritative=authoritative)
                for i, ns in enumerate(sub_shape):
                    if i < len(rest):
                        rest[i] = max(rest[i], ns)
                    else:
                        rest.append(ns)
        return rest
'''))
R('cs-inl','Fiber._calcShape',('''
        if shape is None:
            shape = []
        max_coord = self.maxCoord()
        if not self.coords:
            if len(shape) < level + 1:
                shape.append(0)
            return shape
        new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
        if len(shape) < level + 1:
            shape.append(new_shape)
        else:
            shape[level] = max(shape[level], new_shape)
''','''
        shape = [] if shape is None else shape
        if not self.coords:
            if len(shape) <= level:
                shape.append(0)
            return shape
        new_shape = Fiber._transCoord(self.maxCoord(), lambda c: c + 1)
        if len(shape) > level:
            shape[level] = max(new_shape, shape[level])
        else:
            shape.append(new_shape)
'''))
R('tc-isin','Fiber._transCoord',('''
        assert isinstance(coord, tuple) or isinstance(coord, int) or isinstance(coord, float) or isinstance(coord, Any)
        if isinstance(coord, tuple):
            return tuple((Fiber._transCoord(c, trans_fn) for c in coord))
        elif isinstance(coord, Any):
            return coord
        return trans_fn(coord)
''','''
        assert isinstance(coord, (tuple, int, float, Any))
        if isinstance(coord, Any):
            return coord
        if isinstance(coord, tuple):
            return tuple([Fiber._transCoord(c, trans_fn) for c in coord])
        return trans_fn(coord)
'''))
R('ri-neg','Fiber.getRankIds',('''
        owner = self.getOwner()
        if owner is not None:
            return owner.getRankIds(all_ranks=True)
        rankids = [f'X.{d}' for d in reversed(range(self.getDepth()))]
        rank_id = self.getRankAttrs().getId()
        if rank_id != 'Unknown':
            rankids[0] = rank_id
        return rankids
''','''
        if self.getOwner() is not None:
            return self.getOwner().getRankIds(all_ranks=True)
        depth = self.getDepth()
        rankids = [f'X.{depth - 1 - i}' for i in range(depth)]
        rank_id = self.getRankAttrs().getId()
        if rank_id != 'Unknown':
            rankids[0] = rank_id
        return rankids
'''))
R('dep-split','Fiber.getDepth',('''
        fiber = self
        depth = 1
        while len(fiber.payloads) > 0 and isinstance(fiber.payloads[0], Fiber):
            depth += 1
            fiber = fiber.payloads[0]
        return depth
''','''
        depth = 1
        payloads = self.payloads
        while payloads and isinstance(payloads[0], Fiber):
            payloads = payloads[0].payloads
            depth += 1
        return depth
'''))
R('unc-elif','Fiber.uncompress',('''
            if mask == 'AB':
                if Payload.contains(p, Fiber):
                    f.append(Payload.get(p).uncompress(shape, level + 1))
                else:
                    f.append(Payload.get(p))
            if mask == 'B':
                f.append(self._fillempty(shape, level + 1))
''','''
            if mask == 'B':
                value = self._fillempty(shape, level + 1)
            elif mask == 'AB':
                value = Payload.get(p)
                if Payload.contains(p, Fiber):
                    value = value.uncompress(shape, level + 1)
            else:
                continue
            f.append(value)
'''))
R('fe-comp','Fiber._fillempty',('''
        f = []
        for i in range(shape[level]):
            f.append(self._fillempty(shape, level + 1))
        return f
''','''
        return [self._fillempty(shape, level + 1) for _ in range(shape[level])]
'''))
R('ils-clear','Fiber.__ilshift__',('''
        if len(self.coords) != 0:
            for payload in self.payloads:
                self._disownPayload(payload)
            self.coords = []
            self.payloads = []
''','''
        if self.coords:
            for payload in self.payloads:
                self._disownPayload(payload)
            self.coords, self.payloads = [], []
'''))
R('add-else','Fiber.__add__',('''
        coords = []
        payloads = []
        if isinstance(other, Fiber):
            for c, (_, self_val, other_val) in self | other:
                coords.append(c)
                payloads.append(self_val + other_val)
        else:
            for c, p in self.iterShape():
                coords.append(c)
                payloads.append(other + p.value)
        return self._newFiber(coords, payloads)
''','''
        if isinstance(other, Fiber):
            elements = ((c, a + b) for c, (_, a, b) in self | other)
        else:
            elements = ((c, other + p.value) for c, p in self.iterShape())
        coords = []
        payloads = []
        for c, p in elements:
            coords.append(c)
            payloads.append(p)
        return self._newFiber(coords, payloads)
'''))
R('imul-comp','Fiber.__imul__',('''
            for pos in reversed(range(len(self.coords))):
                if self.coords[pos] not in products:
                    self._disownPayload(self.payloads[pos])
                    del self.coords[pos]
                    del self.payloads[pos]
            return self
''','''
            for pos in range(len(self.coords) - 1, -1, -1):
                if self.coords[pos] in products:
                    continue
                self._disownPayload(self.payloads[pos])
                self.coords.pop(pos)
                self.payloads.pop(pos)
            return self
'''))
R('mul-early','Fiber.__mul__',('''
        result = self._newFiber(coords, payloads)
        return result
''','''
        return self._newFiber(coords, payloads)
'''))
R('div-ceil','Fiber.__truediv__',('''
        return self.splitUniform((shape + partitions - 1) // partitions)
''','''
        step = (shape + partitions - 1) // partitions
        return self.splitUniform(step)
'''))
