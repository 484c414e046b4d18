F('core/fiber.py')
R('fcp-helper','Fiber.fromCoordPayloadList',('''
        coords, payloads = zip(*cp)
        return cls(coords, payloads, **kwargs)
''','''
        return cls(*zip(*cp), **kwargs)
'''))
R('fcp-two','Fiber.fromCoordPayloadList',('''
        coords, payloads = zip(*cp)
        return cls(coords, payloads, **kwargs)
''','''
        columns = zip(*cp)
        coords, payloads = columns
        fiber = cls(coords=coords, payloads=payloads, **kwargs)
        return fiber
'''))
R('fy-kw','Fiber.fromYAMLfile',('''
        coords, payloads = Fiber.parse(yamlfile, default)
        return cls(coords, payloads, default=default, **kwargs)
''','''
        parsed = Fiber.parse(yamlfile, default)
        return cls(coords=parsed[0], payloads=parsed[1], default=default, **kwargs)
'''))
R('fu-isnone','Fiber.fromUncompressed',('''
        if f is None:
            return Fiber([], [], shape=len(payload_list), default=default)
        return f
''','''
        if f is not None:
            return f
        return Fiber([], [], default=default, shape=len(payload_list))
'''))
R('mk-filter','Fiber._makeFiber',('''
        zipped = [(c, p) for c, p in enumerate(payload_list) if p != default]
''','''
        zipped = []
        for c, p in enumerate(payload_list):
            if p != default:
                zipped.append((c, p))
'''))
R('mk-nested','Fiber._makeFiber',('''
        if isinstance(payload_list[0], list):
            size_check = len(payload_list[0])
            for p in payload_list:
                assert size_check == len(p), 'All lists must be the same length'
''','''
        nested = isinstance(payload_list[0], list)
        if nested:
            size_check = len(payload_list[0])
            assert all((len(p) == size_check for p in payload_list)), 'All lists must be the same length'
'''),('''
        if isinstance(payload_list[0], list):
            coords = []
            payloads = []
''','''
        if nested:
            coords = []
            payloads = []
'''))
R('mk-len','Fiber._makeFiber',('''
        if len(zipped) == 0:
            return None
''','''
        if not zipped:
            return None
'''),('''
        if len(coords) == 0:
            return None
''','''
        if not coords:
            return None
'''))
R('mk-cont','Fiber._makeFiber',('''
                if real_p is not None:
                    coords.append(c)
                    payloads.append(real_p)
''','''
                if real_p is None:
                    continue
                coords.append(c)
                payloads.append(real_p)
'''))
R('mk-help','Fiber._makeFiber',('''
            coords = []
            payloads = []
            for c, p in zipped:
                real_p = Fiber._makeFiber(p, default=default)
                if real_p is not None:
                    coords.append(c)
                    payloads.append(real_p)
''','''
            coords, payloads = Fiber._makeSubFibers(zipped, default)
'''),('+','''
    @staticmethod
    def _makeSubFibers(zipped, default):
        coords = []
        payloads = []
        for c, p in zipped:
            real_p = Fiber._makeFiber(p, default=default)
            if real_p is not None:
                coords.append(c)
                payloads.append(real_p)
        return coords, payloads
'''))
R('mk-sizes','Fiber._makeFiber',('''
            for p in payload_list:
                assert size_check == len(p), 'All lists must be the same length'
''','''
            for p in payload_list[1:]:
                assert size_check == len(p), 'All lists must be the same length'
'''))
R('fr-tern','Fiber.fromRandom',('''
        for c in range(shape[0]):
            if random.random() < density[0]:
                if len(shape) == 1:
                    payload = random.randint(1, interval)
                    if payload == default:
                        continue
                else:
                    payload = Fiber.fromRandom(shape[1:], density[1:], interval, default=default)
                    if payload.isEmpty():
                        continue
            else:
                if default == 0:
                    continue
                payload = 0
            coords.append(c)
            payloads.append(payload)
        f = Fiber(coords, payloads, default=default)
        return f
''','''
        is_leaf = len(shape) == 1
        for c in range(shape[0]):
            if not random.random() < density[0]:
                if default == 0:
                    continue
                payload = 0
            elif is_leaf:
                payload = random.randint(1, interval)
                if payload == default:
                    continue
            else:
                payload = Fiber.fromRandom(shape[1:], density[1:], interval, default=default)
                if payload.isEmpty():
                    continue
            coords.append(c)
            payloads.append(payload)
        return Fiber(coords, payloads, default=default)
'''))
R('fr-dens','Fiber.fromRandom',('''
            density = (len(shape) - 1) * [1.0] + [density]
''','''
            upper = [1.0] * (len(shape) - 1)
            density = upper + [density]
'''))
R('fi-kw','Fiber.fromIterator',('''
        f = cls(**kwargs)
        f.iter = iter_
        f._setIsLazy(True)
        return f
''','''
        fiber = cls(**kwargs)
        fiber._setIsLazy(True)
        fiber.iter = iter_
        return fiber
'''))
R('fl-unp','Fiber.fromLazy',('''
        f_out = cls(**kwargs, default=fiber.getDefault())
        for c, (f_ref, f_val) in f_out << fiber:
            f_ref <<= f_val
        return f_out
''','''
        default = fiber.getDefault()
        f_out = cls(default=default, **kwargs)
        for _, payload in f_out << fiber:
            f_ref, f_val = payload
            f_ref <<= f_val
        return f_out
'''))
R('fl-call','Fiber.fromLazy',('''
        for c, (f_ref, f_val) in f_out << fiber:
            f_ref <<= f_val
''','''
        for c, (f_ref, f_val) in f_out.__lshift__(fiber):
            f_ref <<= f_val
'''))
R('cl-order','Fiber.clear',('''
        self.coords.clear()
        self.payloads.clear()
        self._setIsLazy(False)
''','''
        self.payloads.clear()
        self.coords.clear()
        self._setIsLazy(False)
'''))
R('cl-del','Fiber.clear',('''
        self.coords.clear()
        self.payloads.clear()
''','''
        del self.coords[:]
        del self.payloads[:]
'''))
R('cl-slice','Fiber.clear',('''
        self.coords.clear()
        self.payloads.clear()
''','''
        self.coords[:] = []
        self.payloads[:] = []
'''))
R('ap-max','Fiber.append',('''
        if self._ordered:
            assert self.maxCoord() is None or self.maxCoord() < coord, "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
        payload = Payload.maybe_box(value)
''','''
        payload = Payload.maybe_box(value)
        if self._ordered:
            last = self.maxCoord()
            assert last is None or last < coord, "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
'''))
R('ap-helper','Fiber.append',('''
        if self._ordered:
            assert self.maxCoord() is None or self.maxCoord() < coord, "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
''','''
        self._checkAppend(coord)
'''),('+','''
    def _checkAppend(self, coord):
        if not self._ordered:
            return
        last = self.maxCoord()
        if last is None:
            return
        assert last < coord, "Fiber coordinates in 'ordered' fibers must be monotonically increasing"
'''))
R('es-ret','Fiber.estimateShape',('''
        shape = self._calcShape(all_ranks=all_ranks)
        if not all_ranks:
            shape = shape[0]
        return shape
''','''
        shape = self._calcShape(all_ranks=all_ranks)
        if all_ranks:
            return shape
        return shape[0]
'''))
R('es-tern','Fiber.estimateShape',('''
        if not all_ranks:
            shape = shape[0]
        return shape
''','''
        return shape if all_ranks else shape[0]
'''))
R('nx-add','Fiber._nextCoord',('''
            new = list(coord[:-1])
            new.append(Fiber._nextCoord(coord[-1]))
            return tuple(new)
''','''
            return coord[:-1] + (Fiber._nextCoord(coord[-1]),)
'''))
R('nx-star','Fiber._nextCoord',('''
            new = list(coord[:-1])
            new.append(Fiber._nextCoord(coord[-1]))
            return tuple(new)
''','''
            *upper, last = coord
            return (*upper, Fiber._nextCoord(last))
'''))
R('nx-early','Fiber._nextCoord',('''
        assert isinstance(coord, tuple) or isinstance(coord, int)
        if isinstance(coord, tuple):
            new = list(coord[:-1])
            new.append(Fiber._nextCoord(coord[-1]))
            return tuple(new)
        return coord + 1
''','''
        assert isinstance(coord, (tuple, int))
        if not isinstance(coord, tuple):
            return coord + 1
        new = list(coord)
        new[-1] = Fiber._nextCoord(coord[-1])
        return tuple(new)
'''))
R('tc-isinst','Fiber._transCoord',('''
        assert isinstance(coord, tuple) or isinstance(coord, int) or isinstance(coord, float) or isinstance(coord, Any)
        if isinstance(coord, tuple):
            return tuple((Fiber._transCoord(c, trans_fn) for c in coord))
        elif isinstance(coord, Any):
            return coord
        return trans_fn(coord)
''','''
        assert isinstance(coord, (tuple, int, float, Any))
        if isinstance(coord, Any):
            return coord
        if isinstance(coord, tuple):
            return tuple([Fiber._transCoord(c, trans_fn) for c in coord])
        return trans_fn(coord)
'''))
R('tc-loop','Fiber._transCoord',('''
            return tuple((Fiber._transCoord(c, trans_fn) for c in coord))
''','''
            new_coord = []
            for c in coord:
                new_coord.append(Fiber._transCoord(c, trans_fn))
            return tuple(new_coord)
'''))
R('cc-names','Fiber.concat',('''
        return self._newFiber(coords=self.coords + other.coords, payloads=self.payloads + other.payloads)
''','''
        coords = self.coords + other.coords
        payloads = self.payloads + other.payloads
        return self._newFiber(coords, payloads)
'''))
R('cc-star','Fiber.concat',('''
        return self._newFiber(coords=self.coords + other.coords, payloads=self.payloads + other.payloads)
''','''
        return self._newFiber(coords=[*self.coords, *other.coords], payloads=[*self.payloads, *other.payloads])
'''))
R('cc-assert','Fiber.concat',('''
        assert not self.isLazy() and (not other.isLazy())
        assert Payload.contains(other, Fiber), 'Fiber concatenation must involve two fibers'
''','''
        assert Payload.contains(other, Fiber), 'Fiber concatenation must involve two fibers'
        assert not (self.isLazy() or other.isLazy())
'''))
R('fl-none','Fiber.flattenRanks',('''
        def merge_fn(ps):
            raise ValueError
        return self.mergeRanks(depth=depth, levels=levels, style=style, merge_fn=merge_fn)
''','''
        def duplicate(payloads):
            raise ValueError
        return self.mergeRanks(depth, levels, style, duplicate)
'''))
R('fc-dict','Fiber._flattenCoords',('''
        if style == 'tuple':
            if not isinstance(c1, tuple):
                c1 = (c1,)
            if not isinstance(c0, tuple):
                c0 = (c0,)
            c1_c0 = c1 + c0
        elif style == 'pair':
            c1_c0 = (c1, c0)
        elif style == 'absolute':
            c1_c0 = c0
        elif style == 'relative':
            c1_c0 = c1 + c0
        elif style == 'linear':
            assert shape is not None
            c1_c0 = c1 * shape + c0
        else:
            assert False, f'Supported coordinate styles are: tuple, pair, absolute, relative, and linear. Got: {style}'
        return c1_c0
''','''
        if style == 'linear':
            assert shape is not None
            return c1 * shape + c0
        if style == 'relative':
            return c1 + c0
        if style == 'absolute':
            return c0
        if style == 'pair':
            return (c1, c0)
        if style == 'tuple':
            upper = c1 if isinstance(c1, tuple) else (c1,)
            lower = c0 if isinstance(c0, tuple) else (c0,)
            return upper + lower
        assert False, f'Supported coordinate styles are: tuple, pair, absolute, relative, and linear. Got: {style}'
'''))
R('mr-sum','Fiber.mergeRanks',('''
        if merge_fn is None:
            merge_fn = lambda ps: sum(ps)
''','''
        if merge_fn is None:
            merge_fn = sum
'''))
R('mr-if','Fiber.mergeRanks',('''
        if depth == 0:
            return copied._mergeRanksHelper(levels=levels, style=style, merge_fn=merge_fn)
        copied.updatePayloadsBelow(Fiber._mergeRanksHelper, depth=depth - 1, levels=levels, style=style, merge_fn=merge_fn)
        copied.setOwner(None)
        return copied
''','''
        if depth > 0:
            copied.updatePayloadsBelow(Fiber._mergeRanksHelper, depth=depth - 1, levels=levels, style=style, merge_fn=merge_fn)
            copied.setOwner(None)
            return copied
        return copied._mergeRanksHelper(levels=levels, style=style, merge_fn=merge_fn)
'''))
R('dp-with','Fiber.dump',('''
        fiber_dict = self.fiber2dict()
        with open(yamlfile, 'w') as stream:
            yaml.dump(fiber_dict, stream)
''','''
        contents = self.fiber2dict()
        with open(yamlfile, 'w') as out:
            yaml.dump(contents, out)
'''))
R('ps-early','Fiber.parse',('''
        if not isinstance(y_file, dict) or 'fiber' not in y_file:
            print('Yaml is not a fiber')
            exit(1)
        newfiber = Fiber.dict2fiber(y_file)
        return (newfiber.getCoords(), newfiber.getPayloads())
''','''
        if isinstance(y_file, dict) and 'fiber' in y_file:
            fiber = Fiber.dict2fiber(y_file)
            return (fiber.getCoords(), fiber.getPayloads())
        print('Yaml is not a fiber')
        exit(1)
'''))
R('d2-comp','Fiber.dict2fiber',('''
            f_payloads = []
            for y_f_payload in y_f_payloads:
                f_payloads.append(Fiber.dict2fiber(y_f_payload, level + 1))
            subtree = Fiber(coords=f_coords, payloads=f_payloads)
        else:
            subtree = y_payload_dict
        return subtree
''','''
            f_payloads = [Fiber.dict2fiber(p, level + 1) for p in y_f_payloads]
            return Fiber(coords=f_coords, payloads=f_payloads)
        return y_payload_dict
'''))
R('d2-early','Fiber.dict2fiber',('''
        if isinstance(y_payload_dict, dict) and 'fiber' in y_payload_dict:
            y_fiber = y_payload_dict['fiber']
            if not isinstance(y_fiber, dict):
                print('Malformed payload')
                exit(0)
            if 'coords' not in y_fiber:
                print('Malformed fiber')
                exit(0)
            if 'payloads' not in y_fiber:
                print('Malformed fiber')
                exit(0)
            f_coords = y_fiber['coords']
            y_f_payloads = y_fiber['payloads']
            f_payloads = []
            for y_f_payload in y_f_payloads:
                f_payloads.append(Fiber.dict2fiber(y_f_payload, level + 1))
            subtree = Fiber(coords=f_coords, payloads=f_payloads)
        else:
            subtree = y_payload_dict
        return subtree
''','''
        if not isinstance(y_payload_dict, dict) or 'fiber' not in y_payload_dict:
            return y_payload_dict
        y_fiber = y_payload_dict['fiber']
        if not isinstance(y_fiber, dict):
            print('Malformed payload')
            exit(0)
        if 'coords' not in y_fiber or 'payloads' not in y_fiber:
            print('Malformed fiber')
            exit(0)
        f_payloads = []
        for y_f_payload in y_fiber['payloads']:
            f_payloads.append(Fiber.dict2fiber(y_f_payload, level + 1))
        return Fiber(coords=y_fiber['coords'], payloads=f_payloads)
'''))
R('f2-loop','Fiber.fiber2dict',('''
        f = {'fiber': {'coords': self.coords, 'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
        return f
''','''
        payloads = []
        for p in self.payloads:
            payloads.append(Payload.payload2dict(p))
        contents = {'coords': self.coords, 'payloads': payloads}
        return {'fiber': contents}
'''))
R('f2-item','Fiber.fiber2dict',('''
        f = {'fiber': {'coords': self.coords, 'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
        return f
''','''
        contents = {}
        contents['coords'] = self.coords
        contents['payloads'] = [Payload.payload2dict(p) for p in self.payloads]
        f = {'fiber': contents}
        return f
'''))
R('f2-dict','Fiber.fiber2dict',('''
        f = {'fiber': {'coords': self.coords, 'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
        return f
''','''
        return {'fiber': dict(coords=self.coords, payloads=list(map(Payload.payload2dict, self.payloads)))}
'''))
R('nf-attrs','Fiber._newFiber',('''
        if default is None:
            default = self.getRankAttrs().getDefault()
        if shape is None:
            shape = self.getRankAttrs().getShape()
''','''
        attrs = self.getRankAttrs()
        if default is None:
            default = attrs.getDefault()
        if shape is None:
            shape = attrs.getShape()
'''))
R('nf-tern','Fiber._newFiber',('''
        if ordered is None:
            ordered = self._ordered
        if unique is None:
            unique = self._unique
''','''
        ordered = self._ordered if ordered is None else ordered
        unique = unique if unique is not None else self._unique
'''))
R('c2-flip','Fiber._coord2pos',('''
        if self._ordered:
            if start_pos is None:
                index = bisect.bisect_left(coords, coord)
            else:
                index = len(coords)
                for i in range(start_pos, len(coords)):
                    if coords[i] >= coord:
                        index = i
                        break
        else:
            assert start_pos is None, 'Unordered fibers do not support `start pos`'
            index = len(coords)
            for i in range(len(coords)):
                if coords[i] == coord:
                    index = i
                    break
        return index
''','''
        if not self._ordered:
            assert start_pos is None, 'Unordered fibers do not support `start pos`'
            for i in range(len(coords)):
                if coords[i] == coord:
                    return i
            return len(coords)
        if start_pos is None:
            return bisect.bisect_left(coords, coord)
        for i in range(start_pos, len(coords)):
            if coords[i] >= coord:
                return i
        return len(coords)
'''))
R('c2-else','Fiber._coord2pos',('''
                index = len(coords)
                for i in range(start_pos, len(coords)):
                    if coords[i] >= coord:
                        index = i
                        break
''','''
                for i in range(start_pos, len(coords)):
                    if coords[i] >= coord:
                        index = i
                        break
                else:
                    index = len(coords)
'''))
R('c2-while','Fiber._coord2pos',('''
                index = len(coords)
                for i in range(start_pos, len(coords)):
                    if coords[i] >= coord:
                        index = i
                        break
''','''
                index = start_pos
                while index < len(coords) and coords[index] < coord:
                    index += 1
'''))
R('c2-enum','Fiber._coord2pos',('''
            for i in range(len(coords)):
                if coords[i] == coord:
                    index = i
                    break
''','''
            for i, c in enumerate(coords):
                if c == coord:
                    index = i
                    break
'''))
R('c2-next','Fiber._coord2pos',('''
            index = len(coords)
            for i in range(len(coords)):
                if coords[i] == coord:
                    index = i
                    break
''','''
            index = next((i for i, c in enumerate(coords) if c == coord), len(coords))
'''))
R('c2-help','Fiber._coord2pos',('''
                index = len(coords)
                for i in range(start_pos, len(coords)):
                    if coords[i] >= coord:
                        index = i
                        break
''','''
                index = Fiber._linearSearch(coords, coord, start_pos)
'''),('+','''
    @staticmethod
    def _linearSearch(coords, coord, start):
        for i in range(start, len(coords)):
            if coords[i] >= coord:
                return i
        return len(coords)
'''))
R('ce-early','Fiber._coordExists',('''
        exists = pos < len(self.coords) and self.coords[pos] == coord
        return exists
''','''
        if pos >= len(self.coords):
            return False
        return self.coords[pos] == coord
'''))
R('ce-flip','Fiber._coordExists',('''
        exists = pos < len(self.coords) and self.coords[pos] == coord
        return exists
''','''
        in_range = len(self.coords) > pos
        return in_range and coord == self.coords[pos]
'''))
R('co-zip','Fiber._checkOrdered',('''
        coords = self.coords
        last = coords[0]
        for c in coords[1:]:
            if c <= last:
                assert False, 'Illegal non-monotonic coordinate'
            last = c
''','''
        for last, c in zip(self.coords, self.coords[1:]):
            assert c > last, 'Illegal non-monotonic coordinate'
'''))
R('co-idx','Fiber._checkOrdered',('''
        coords = self.coords
        last = coords[0]
        for c in coords[1:]:
            if c <= last:
                assert False, 'Illegal non-monotonic coordinate'
            last = c
''','''
        for i in range(1, len(self.coords)):
            if self.coords[i] <= self.coords[i - 1]:
                assert False, 'Illegal non-monotonic coordinate'
'''))
R('co-assert','Fiber._checkOrdered',('''
        if not self._ordered or len(self.coords) == 0:
            return True
        coords = self.coords
        last = coords[0]
        for c in coords[1:]:
            if c <= last:
                assert False, 'Illegal non-monotonic coordinate'
            last = c
''','''
        if not self._ordered:
            return True
        if not self.coords:
            return True
        last = self.coords[0]
        for c in self.coords[1:]:
            assert not c <= last, 'Illegal non-monotonic coordinate'
            last = c
'''))
R('cu-tern','Fiber._checkUnique',('''
        if self._ordered:
            coords = self.coords
        else:
            coords = sorted(self.coords)
        last = None
''','''
        coords = self.coords if self._ordered else sorted(self.coords)
        last = None
'''))
R('cu-assert','Fiber._checkUnique',('''
            if c == last:
                assert False, 'Illegal repeated coordinate'
            last = c
''','''
            assert not c == last, 'Illegal repeated coordinate'
            last = c
'''))
R('cu-help','Fiber._checkUnique',('''
        if self._ordered:
            coords = self.coords
        else:
            coords = sorted(self.coords)
        last = None
        for c in coords:
''','''
        last = None
        for c in self._sortedCoords():
'''),('+','''
    def _sortedCoords(self):
        if self._ordered:
            return self.coords
        return sorted(self.coords)
'''))
R('gp-coll','Fiber.getPayload',('''
        if existing:
            payload = self.payloads[index]
        elif allocate:
            payload = self._createDefault(addtorank=False)
            const_used = not isinstance(payload, Fiber)
        else:
            payload = Payload.maybe_box(default)
            const_used = True
''','''
        if existing:
            payload = self.payloads[index]
            const_used = False
        elif not allocate:
            payload = Payload.maybe_box(default)
            const_used = True
        else:
            payload = self._createDefault(addtorank=False)
            const_used = not isinstance(payload, Fiber)
'''),('        const_used = False\n        if isinstance','        if isinstance'))
R('gp-help','Fiber.getPayload',('''
        if existing:
            payload = self.payloads[index]
        elif allocate:
            payload = self._createDefault(addtorank=False)
            const_used = not isinstance(payload, Fiber)
        else:
            payload = Payload.maybe_box(default)
            const_used = True
''','''
        payload, const_used = self._fetchPayload(index, existing, allocate, default)
'''),('        const_used = False\n        if isinstance','        if isinstance'),('+','''
    def _fetchPayload(self, index, existing, allocate, default):
        if existing:
            return self.payloads[index], False
        if allocate:
            payload = self._createDefault(addtorank=False)
            return payload, not isinstance(payload, Fiber)
        return Payload.maybe_box(default), True
'''))
R('gp-saved','Fiber.getPayload',('''
            if existing or index == 0:
                self.setSavedPos(index, distance=index - start_pos)
            else:
                self.setSavedPos(index - 1, distance=index - start_pos)
''','''
            saved_pos = index if existing or index == 0 else index - 1
            self.setSavedPos(saved_pos, distance=index - start_pos)
'''))
R('gpr-swap','Fiber.getPayloadRef',('''
        if self._coordExists(coords[0], index):
            payload = self.payloads[index]
        else:
            payload = self._create_payload(coords[0])
''','''
        coord = coords[0]
        if not self._coordExists(coord, index):
            payload = self._create_payload(coord)
        else:
            payload = self.payloads[index]
'''))
R('gpr-pos2','Fiber.getPayloadRef',('''
            payload = self._create_payload(coords[0])
''','''
            payload = self._create_payload(coords[0], pos=None)
'''))
R('cp-simple','Fiber._create_payload',('''
        self.coords.insert(pos, coord)
        self.payloads.insert(pos, payload)
        payload = self.payloads[pos]
        assert Payload.is_payload(payload)
        return payload
''','''
        self.payloads.insert(pos, payload)
        self.coords.insert(pos, coord)
        payload = self.payloads[pos]
        assert Payload.is_payload(payload)
        return payload
'''))
R('gr-tern','Fiber.getRange',('''
        if end_coord is None:
            end_coord = start_coord + size
        return self.project(trans_fn=trans_fn, interval=[start_coord, end_coord], start_pos=start_pos)
''','''
        end = start_coord + size if end_coord is None else end_coord
        interval = [start_coord, end]
        return self.project(trans_fn=trans_fn, interval=interval, start_pos=start_pos)
'''))
R('gpos-if','Fiber.getPosition',('''
        if not self._coordExists(coord, index):
            index = None
        if start_pos is not None and index is not None:
            self.setSavedPos(index, distance=index - start_pos)
        return index
''','''
        if not self._coordExists(coord, index):
            return None
        if start_pos is not None:
            self.setSavedPos(index, distance=index - start_pos)
        return index
'''))
R('gposr-none','Fiber.getPositionRef',('''
        if start_pos is not None and index is not None:
            self.setSavedPos(index, distance=index - start_pos)
''','''
        if start_pos is not None:
            self.setSavedPos(index, distance=index - start_pos)
'''))
R('iol-for','Fiber.insert',('''
        try:
            index = next((x for x, val in enumerate(self.coords) if val > coord))
            self.coords.insert(index, coord)
            self.payloads.insert(index, payload)
        except StopIteration:
            self.coords.append(coord)
            self.payloads.append(payload)
        return None
''','''
        try:
            index = next((i for i, c in enumerate(self.coords) if coord < c))
        except StopIteration:
            self.coords.append(coord)
            self.payloads.append(payload)
        else:
            self.coords.insert(index, coord)
            self.payloads.insert(index, payload)
'''))
R('pj-none','Fiber.project',('''
        if coord_ex is None:
            if len(self) > 0:
                coord_ex, _ = next(self.iterOccupancy(tick=False), (0, None))
            else:
                coord_ex = 0
''','''
        if coord_ex is None:
            coord_ex = 0
            if len(self) > 0:
                first = next(self.iterOccupancy(tick=False), (0, None))
                coord_ex = first[0]
'''))
R('pj-range','Fiber.project',('''
        if interval:
            min_, max_ = interval
        else:
            start = trans_fn(self.getActive()[0])
            end = trans_fn(Fiber._transCoord(self.getActive()[1], lambda c: c - 1))
            min_ = min(start, end)
            max_ = Fiber._transCoord(max(start, end), lambda c: c + 1)
        result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
''','''
        active_range = self._projectActive(trans_fn, interval)
        result = Fiber.fromIterator(project_iterator, active_range=active_range)
'''),('+','''
    def _projectActive(self, trans_fn, interval):
        if interval:
            min_, max_ = interval
            return (min_, max_)
        active = self.getActive()
        start = trans_fn(active[0])
        end = trans_fn(Fiber._transCoord(active[1], lambda c: c - 1))
        return (min(start, end), Fiber._transCoord(max(start, end), lambda c: c + 1))
'''))
R('pj-zip','Fiber.project',('''
                    if self.interv is not None and c >= self.interv[1]:
                        break
                    if self.interv is None or (c >= self.interv[0] and c < self.interv[1]):
                        yield (c, p)
                        if traced:
                            Metrics.addUse(src_rank, old_c, i + j, type_=trace, iteration_num=iteration)
                            iteration = Metrics.getIter().copy()
''','''
                    if self.interv is not None:
                        if c >= self.interv[1]:
                            break
                        if c < self.interv[0]:
                            continue
                    yield (c, p)
                    if traced:
                        Metrics.addUse(src_rank, old_c, i + j, type_=trace, iteration_num=iteration)
                        iteration = Metrics.getIter().copy()
'''))
R('pj-start','Fiber.project',('''
                    if self.start is None:
                        i = 0
                    else:
                        i = self.start
''','''
                    i = 0 if self.start is None else self.start
'''))
R('pn-comp','Fiber.prune',('''
                for i, (c, p) in enumerate(f_iter):
                    if self.trans(i, c, p):
                        yield (c, p)
''','''
                i = 0
                for c, p in f_iter:
                    if self.trans(i, c, p):
                        yield (c, p)
                    i += 1
'''))
R('pn-cont','Fiber.prune',('''
                for i, (c, p) in enumerate(f_iter):
                    if self.trans(i, c, p):
                        yield (c, p)
''','''
                for i, element in enumerate(f_iter):
                    c, p = element
                    if not self.trans(i, c, p):
                        continue
                    yield (c, p)
'''))
R('adp-tern','Fiber._adoptPayload',('''
        owner = self.getOwner()
        if owner is None or not isinstance(payload, Fiber):
            return
        next_rank = owner.getNextRank()
        if next_rank is None or payload.getOwner() is next_rank:
            return
        next_rank.append(payload)
''','''
        if not isinstance(payload, Fiber):
            return
        owner = self.getOwner()
        next_rank = None if owner is None else owner.getNextRank()
        if next_rank is None:
            return
        if payload.getOwner() is next_rank:
            return
        next_rank.append(payload)
'''))
R('rep-names','Fiber.__repr__',('''
        payloads = [Payload.get(r) for r in self.payloads]
        str = f'Fiber({self.coords!r}, {payloads!r}'
        if self._owner:
            str += f', owner={self._owner.getId()}'
        str += ')'
        return str
''','''
        payloads = list(map(Payload.get, self.payloads))
        owner = ''
        if self._owner:
            owner = f', owner={self._owner.getId()}'
        return f'Fiber({self.coords!r}, {payloads!r}{owner})'
'''))
