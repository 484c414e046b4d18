F('codec/tensor_codec.py')
R('ini-comp','Codec.__init__',('''
        self.fmts = list()
        for fmt in self.format_descriptor:
            self.fmts.append(descriptor_to_fmt[fmt])
        self.num_ranks = len(format_descriptor)
''','''
        self.fmts = [descriptor_to_fmt[fmt] for fmt in format_descriptor]
        self.num_ranks = len(self.fmts)
'''))
R('ini-first','Codec.__init__',('''
        self.format_descriptor = format_descriptor
        self.cumulative_payloads = cumulative_payloads
        assert len(cumulative_payloads) == len(format_descriptor)
''','''
        num_ranks = len(format_descriptor)
        assert num_ranks == len(cumulative_payloads)
        self.cumulative_payloads = cumulative_payloads
        self.format_descriptor = format_descriptor
'''))
R('ap-tern','Codec.add_payload',('''
        if self.cumulative_payloads[depth]:
            output.append(cumulative)
        else:
            output.append(noncumulative)
''','''
        payload = cumulative if self.cumulative_payloads[depth] else noncumulative
        output.append(payload)
'''))
R('gk-f','Codec.get_keys',('''
        return ('coords_{}'.format(ranks[depth].lower()), 'payloads_{}'.format(ranks[depth].lower()))
''','''
        rank = ranks[depth].lower()
        return (f'coords_{rank}', f'payloads_{rank}')
'''))
R('gk-plus','Codec.get_keys',('''
        return ('coords_{}'.format(ranks[depth].lower()), 'payloads_{}'.format(ranks[depth].lower()))
''','''
        rank = ranks[depth].lower()
        coords_key = 'coords_' + rank
        payloads_key = 'payloads_' + rank
        return (coords_key, payloads_key)
'''))
R('en-root','Codec.encode',('''
        if depth == -1:
            root, size = self.encode(depth + 1, a, ranks, output, output_tensor, shape=shape)
            HFA_root = Uncompressed()
            HFA_root.shape = 1
            if self.fmts[0].encodeUpperPayload():
                payloads_key = 'payloads_root'
                output[payloads_key].append(size)
                HFA_root.occupancies = [0]
                HFA_root.count_payload_reads = True
            HFA_root.payloads = [root]
            output_tensor[0] = [HFA_root]
            return (root, size)
''','''
        if depth == -1:
            return self._encode_root(a, ranks, output, output_tensor, shape)
'''),('+','''
    def _encode_root(self, a, ranks, output, output_tensor, shape):
        root, size = self.encode(0, a, ranks, output, output_tensor, shape=shape)
        holder = Uncompressed()
        holder.shape = 1
        holder.payloads = [root]
        if self.fmts[0].encodeUpperPayload():
            output['payloads_root'].append(size)
            holder.occupancies = [0]
            holder.count_payload_reads = True
        output_tensor[0] = [holder]
        return (root, size)
'''))
R('en-rank','Codec.encode',('''
        stats_key = ranks[depth] + '_' + str(len(output_tensor[depth + 1]))
        fiber.setName(stats_key)
''','''
        rank_fibers = output_tensor[depth + 1]
        fiber.setName(ranks[depth] + '_' + str(len(rank_fibers)))
'''),('''
        fiber.idx_in_rank = len(output_tensor[depth + 1])
        if len(output_tensor[depth + 1]) == 0:
            fiber.occupancy_so_far = 0
        elif isinstance(fiber_occupancy, int):
            fiber.occupancy_so_far = output_tensor[depth + 1][-1].occupancy_so_far + output_tensor[depth + 1][-1].nnz
        else:
            print(fiber_occupancy)
            assert isinstance(fiber_occupancy, list)
            fiber.occupancy_so_far = fiber_occupancy[0] + output_tensor[depth + 1][-1].occupancy_so_far
        output_tensor[depth + 1].append(fiber)
''','''
        fiber.idx_in_rank = len(rank_fibers)
        if not rank_fibers:
            fiber.occupancy_so_far = 0
        else:
            prev = rank_fibers[-1]
            if isinstance(fiber_occupancy, int):
                fiber.occupancy_so_far = prev.occupancy_so_far + prev.nnz
            else:
                print(fiber_occupancy)
                assert isinstance(fiber_occupancy, list)
                fiber.occupancy_so_far = fiber_occupancy[0] + prev.occupancy_so_far
        rank_fibers.append(fiber)
'''))
R('en-idx','Codec.encode',('''
        fiber.nnz = fiber_occupancy
        fiber.idx_in_rank = len(output_tensor[depth + 1])
''','''
        fiber.idx_in_rank = len(output_tensor[depth + 1])
        fiber.nnz = fiber_occupancy
'''))
R('en-dim','Codec.encode',('''
        dim_len = a.getShape()[0]
        if shape != None:
            dim_len = shape[depth]
            assert dim_len >= a.getShape()[0]
''','''
        fiber_len = a.getShape()[0]
        if shape is None:
            dim_len = fiber_len
        else:
            dim_len = shape[depth]
            assert dim_len >= fiber_len
'''))
R('en-sofar','Codec.encode',('''
        fiber.idx_in_rank = len(output_tensor[depth + 1])
        if len(output_tensor[depth + 1]) == 0:
            fiber.occupancy_so_far = 0
        elif isinstance(fiber_occupancy, int):
            fiber.occupancy_so_far = output_tensor[depth + 1][-1].occupancy_so_far + output_tensor[depth + 1][-1].nnz
        else:
            print(fiber_occupancy)
            assert isinstance(fiber_occupancy, list)
            fiber.occupancy_so_far = fiber_occupancy[0] + output_tensor[depth + 1][-1].occupancy_so_far
        output_tensor[depth + 1].append(fiber)
''','''
        fiber.idx_in_rank = len(output_tensor[depth + 1])
        fiber.occupancy_so_far = self._occupancy_so_far(output_tensor[depth + 1], fiber_occupancy)
        output_tensor[depth + 1].append(fiber)
'''),('+','''
    @staticmethod
    def _occupancy_so_far(siblings, fiber_occupancy):
        if len(siblings) == 0:
            return 0
        if isinstance(fiber_occupancy, int):
            return siblings[-1].occupancy_so_far + siblings[-1].nnz
        print(fiber_occupancy)
        assert isinstance(fiber_occupancy, list)
        return fiber_occupancy[0] + siblings[-1].occupancy_so_far
'''))
R('en-keys','Codec.encode',('''
        coords_key, payloads_key = self.get_keys(ranks, depth)
        if depth == -1:
''','''
        self.get_keys(ranks, depth)
        if depth == -1:
'''),('''
                payloads_key = 'payloads_root'
                output[payloads_key].append(size)
''','''
                output['payloads_root'].append(size)
'''))
R('od-lit','Codec.get_output_dict',('''
        output = dict()
        output['payloads_root'] = []
''','''
        output = {'payloads_root': []}
'''))
R('od-enum','Codec.get_output_dict',('''
        for i in range(0, len(rank_names)):
            coords_key, payloads_key = Codec.get_keys(rank_names, i)
            output[coords_key] = []
            output[payloads_key] = []
            if self.format_descriptor[i] == 'H':
                ptrs_key = 'ptrs_{}'.format(rank_names[i].lower())
                ht_key = 'ht_{}'.format(rank_names[i].lower())
                output[ptrs_key] = []
                output[ht_key] = []
''','''
        for i, name in enumerate(rank_names):
            for key in Codec.get_keys(rank_names, i):
                output[key] = []
            if self.format_descriptor[i] == 'H':
                output['ptrs_{}'.format(name.lower())] = []
                output['ht_{}'.format(name.lower())] = []
'''))
R('oc-sum','Codec.get_occupancies',('''
        count = 0
        for ind, val in a:
            self.get_occupancies(depth + 1, val, num_ranks, output)
            count = count + 1
        output[depth] = output[depth] + count
''','''
        count = 0
        for _, val in a:
            count += 1
            self.get_occupancies(depth + 1, val, num_ranks, output)
        output[depth] += count
'''))
R('wy-lit','Codec.write_yaml',('''
        header = dict()
        header['name'] = 'tensor-a'
        header['rank_ids'] = tensor.getRankIds()
        header['shapes'] = tensor.getShape()
        header['formats'] = descriptor
''','''
        header = {'name': 'tensor-a',
                  'rank_ids': tensor.getRankIds(),
                  'shapes': tensor.getShape(),
                  'formats': descriptor}
'''))
R('wy-or','Codec.write_yaml',('''
                if descriptor[i] == 'U' and i < len(rank_names) - 1:
                    rank_dict['offsets'] = tensor_in_format[payloads_key]
                elif descriptor[i] == 'H' and i < len(rank_names) - 1:
                    rank_dict['offsets'] = tensor_in_format[payloads_key]
                else:
                    rank_dict['payloads'] = tensor_in_format[payloads_key]
''','''
                is_offset = descriptor[i] in ('U', 'H') and i < len(rank_names) - 1
                field = 'offsets' if is_offset else 'payloads'
                rank_dict[field] = tensor_in_format[payloads_key]
'''))
R('wy-data','Codec.write_yaml',('''
        data = dict()
        data['tensor'] = header
        print(yaml.dump(data, default_flow_style=None, sort_keys=False))''','''
        print(yaml.dump({'tensor': header}, default_flow_style=None, sort_keys=False))'''))

F('codec/formats/compression_format.py')
R('cf-lists','CompressionFormat.__init__',('''
        self.coords = list()
        self.payloads = list()
        self.occupancies = list()
''','''
        self.coords = []
        self.payloads = []
        self.occupancies = []
'''))
R('cf-stats','CompressionFormat.__init__',('''
        self.stats = dict()
        self.coords_write_key = 'num_coords_writes'
        self.stats[self.coords_write_key] = 0
        self.payloads_write_key = 'num_payloads_writes'
        self.stats[self.payloads_write_key] = 0
        self.coords_read_key = 'num_coords_reads'
        self.stats[self.coords_read_key] = 0
        self.payloads_read_key = 'num_payloads_reads'
        self.stats[self.payloads_read_key] = 0
''','''
        self.coords_write_key = 'num_coords_writes'
        self.payloads_write_key = 'num_payloads_writes'
        self.coords_read_key = 'num_coords_reads'
        self.payloads_read_key = 'num_payloads_reads'
        self.stats = {self.coords_write_key: 0, self.payloads_write_key: 0, self.coords_read_key: 0, self.payloads_read_key: 0}
'''))
R('cf-statsloop','CompressionFormat.__init__',('''
        self.stats = dict()
        self.coords_write_key = 'num_coords_writes'
        self.stats[self.coords_write_key] = 0
        self.payloads_write_key = 'num_payloads_writes'
        self.stats[self.payloads_write_key] = 0
        self.coords_read_key = 'num_coords_reads'
        self.stats[self.coords_read_key] = 0
        self.payloads_read_key = 'num_payloads_reads'
        self.stats[self.payloads_read_key] = 0
''','''
        self.coords_write_key = 'num_coords_writes'
        self.payloads_write_key = 'num_payloads_writes'
        self.coords_read_key = 'num_coords_reads'
        self.payloads_read_key = 'num_payloads_reads'
        self.stats = dict()
        for key in (self.coords_write_key, self.payloads_write_key, self.coords_read_key, self.payloads_read_key):
            self.stats[key] = 0
'''))
R('pv-guard','CompressionFormat.payloadToValue',('''
        if payload >= len(self.payloads):
            return None
        self.stats[self.payloads_read_key] += 1
''','''
        num_payloads = len(self.payloads)
        if not payload < num_payloads:
            return None
        self.stats[self.payloads_read_key] += 1
'''),('''
            if i < len(self.payloads):
                self.cache[key] = self.payloads[i]
            else:
                self.cache[key] = 0
''','''
            self.cache[key] = self.payloads[i] if i < num_payloads else 0
'''))
R('pv-key','CompressionFormat.payloadToValue',('''
        key = self.name + '_handleToPayload_' + str(payload)
        cached_val = self.cache.get(key)
        self.cache[key] = self.payloads[payload]
''','''
        prefix = self.name + '_handleToPayload_'
        key = prefix + str(payload)
        self.cache.get(key)
        self.cache[key] = self.payloads[payload]
'''),('''
            key = self.name + '_handleToPayload_' + str(i)
            if i''','''
            key = prefix + str(i)
            if i'''))
R('pv-fstr','CompressionFormat.payloadToValue',('''
        key = self.name + '_handleToPayload_' + str(payload)
        cached_val''','''
        key = f'{self.name}_handleToPayload_{payload}'
        cached_val'''))
R('pv-split','CompressionFormat.payloadToValue',('''
        for i in range(payload, end_of_range):
            key = self.name + '_handleToPayload_' + str(i)
            if i < len(self.payloads):
                self.cache[key] = self.payloads[i]
            else:
                self.cache[key] = 0
        return''','''
        self._prefetch_payloads(payload, end_of_range)
        return'''),('+','''
    def _prefetch_payloads(self, start, end):
        for i in range(start, end):
            value = 0
            if i < len(self.payloads):
                value = self.payloads[i]
            self.cache[self.name + '_handleToPayload_' + str(i)] = value
'''))
R('ru-local','CompressionFormat.round_up',('''
        if n % multiple == 0:
            n += 1
        return (n + multiple - 1) // multiple * multiple
''','''
        target = n + 1 if n % multiple == 0 else n
        return (target + multiple - 1) // multiple * multiple
'''))
R('ru-next','CompressionFormat.round_up',('''
        if n % multiple == 0:
            n += 1
        return (n + multiple - 1) // multiple * multiple
''','''
        return (n // multiple + 1) * multiple
'''))
R('hc-range','CompressionFormat.handleToCoord',('''
        end_of_range = min(end_of_line, len(self.coords))
        for i in range(handle, end_of_range):
            key = self.name + '_handleToCoord_' + str(i)
            self.cache[key] = self.coords[i]
            print('\\t\\t{}, misses {}'.format(key, self.cache.miss_count))
''','''
        for i in range(handle, min(end_of_line, len(self.coords))):
            key = self.name + '_handleToCoord_' + str(i)
            self.cache[key] = self.coords[i]
            print('\\t\\t{}, misses {}'.format(key, self.cache.miss_count))
'''))
R('hc-or','CompressionFormat.handleToCoord',('''
        if handle == None or handle >= len(self.coords):
            return None
''','''
        if handle is None:
            return None
        if handle >= len(self.coords):
            return None
'''))
R('hc-local','CompressionFormat.handleToCoord',('''
        if handle == None or handle >= len(self.coords):
            return None
        key = self.name + '_handleToCoord_' + str(handle)
        cached_val = self.cache.get(key)
        self.cache[key] = self.coords[handle]
''','''
        if handle == None or handle >= len(self.coords):
            return None
        coord = self.coords[handle]
        key = self.name + '_handleToCoord_' + str(handle)
        cached_val = self.cache.get(key)
        self.cache[key] = coord
'''),('''
        self.stats[self.coords_read_key] += 1
        return self.coords[handle]
''','''
        self.stats[self.coords_read_key] += 1
        return coord
'''))
R('hc-stats','CompressionFormat.handleToCoord',('''
        key = self.name + '_handleToCoord_' + str(handle)
        cached_val''','''
        self.stats[self.coords_read_key] += 1
        key = self.name + '_handleToCoord_' + str(handle)
        cached_val'''),('''
        print(self.cache)
        self.stats[self.coords_read_key] += 1
        return self.coords[handle]
''','''
        print(self.cache)
        return self.coords[handle]
'''))
R('hp-nest','CompressionFormat.handleToPayload',('''
        if handle == None or handle >= len(self.payloads):
            return None
        if self.count_payload_reads:
            self.stats[self.payloads_read_key] += 1
        print('\\t{} handleToPayload {}'.format(self.name, handle))
        return handle
''','''
        in_range = handle is not None and handle < len(self.payloads)
        if in_range:
            if self.count_payload_reads:
                self.stats[self.payloads_read_key] += 1
            print('\\t{} handleToPayload {}'.format(self.name, handle))
            return handle
        return None
'''))
R('sl-order','CompressionFormat.setupSlice',('''
        self.num_ret_so_far = 0
        self.num_to_ret = max_num
        self.base = base
        self.bound = bound
''','''
        self.base, self.bound = base, bound
        self.num_to_ret = max_num
        self.num_ret_so_far = 0
'''))
R('ns-done','CompressionFormat.nextInSlice',('''
        if self.coords_handle == None or self.coords_handle >= self.getSliceMaxLength():
            return None
        if self.num_to_ret != None and self.num_to_ret < self.num_ret_so_far:
            return None
        to_ret = self.coords_handle
        self.num_ret_so_far += 1
        self.coords_handle += 1
        return to_ret
''','''
        if self._slice_done():
            return None
        handle = self.coords_handle
        self.coords_handle = handle + 1
        self.num_ret_so_far += 1
        return handle

    def _slice_done(self):
        if self.coords_handle is None:
            return True
        if self.coords_handle >= self.getSliceMaxLength():
            return True
        return self.num_to_ret is not None and self.num_to_ret < self.num_ret_so_far
'''))
R('ns-prev','CompressionFormat.nextInSlice',('''
        to_ret = self.coords_handle
        self.num_ret_so_far += 1
        self.coords_handle += 1
        return to_ret
''','''
        self.num_ret_so_far += 1
        self.coords_handle += 1
        return self.coords_handle - 1
'''))

F('codec/formats/uncompressed.py')
R('ue-leaf','Uncompressed.encodeFiber',('''
        for i in range(0, dim_len):
            if depth < len(ranks) - 1:
''','''
        is_leaf = depth >= len(ranks) - 1
        for i in range(dim_len):
            if not is_leaf:
'''))
R('ue-leaf2','Uncompressed.encodeFiber',('''
        if depth < len(ranks) - 1:
            cumulative_occupancy = codec.get_start_occ(depth + 1)
            self.next_fmt = codec.fmts[depth + 1]
            if codec.fmts[depth + 1].encodeUpperPayload():
                self.count_payload_reads = True
        else:
            self.count_payload_reads = True
''','''
        has_child = depth < len(ranks) - 1
        if has_child:
            self.next_fmt = codec.fmts[depth + 1]
            cumulative_occupancy = codec.get_start_occ(depth + 1)
        if not has_child or self.next_fmt.encodeUpperPayload():
            self.count_payload_reads = True
'''),('''
        for i in range(0, dim_len):
            if depth < len(ranks) - 1:
''','''
        for i in range(0, dim_len):
            if has_child:
'''))
R('ue-pay','Uncompressed.encodeFiber',('''
            elif a.getPayload(i) == 0:
                output[payloads_key].append(0)
                self.payloads.append(0)
            else:
                output[payloads_key].append(a.getPayload(i).value)
                self.payloads.append(a.getPayload(i).value)
''','''
            else:
                payload = a.getPayload(i)
                value = 0 if payload == 0 else payload.value
                output[payloads_key].append(value)
                self.payloads.append(value)
'''))
R('ue-cont','Uncompressed.encodeFiber',('''
            if depth < len(ranks) - 1:
                fiber, child_occupancy = codec.encode(depth + 1, a.getPayload(i), ranks, output, output_tensor, shape=shape)
                self.payloads.append(fiber)
                if isinstance(cumulative_occupancy, int):
                    cumulative_occupancy = cumulative_occupancy + child_occupancy
                else:
                    cumulative_occupancy = [a + b for a, b in zip(cumulative_occupancy, child_occupancy)]
                codec.add_payload(depth, occ_list, cumulative_occupancy, child_occupancy)
                if codec.fmts[depth + 1].encodeUpperPayload():
                    output[payloads_key].append(cumulative_occupancy)
                    self.occupancies.append(cumulative_occupancy)
            elif a.getPayload(i) == 0:
                output[payloads_key].append(0)
                self.payloads.append(0)
            else:
                output[payloads_key].append(a.getPayload(i).value)
                self.payloads.append(a.getPayload(i).value)
''','''
            if depth >= len(ranks) - 1:
                if a.getPayload(i) == 0:
                    output[payloads_key].append(0)
                    self.payloads.append(0)
                else:
                    output[payloads_key].append(a.getPayload(i).value)
                    self.payloads.append(a.getPayload(i).value)
                continue
            fiber, child_occupancy = codec.encode(depth + 1, a.getPayload(i), ranks, output, output_tensor, shape=shape)
            self.payloads.append(fiber)
            if isinstance(cumulative_occupancy, int):
                cumulative_occupancy += child_occupancy
            else:
                cumulative_occupancy = [x + y for x, y in zip(cumulative_occupancy, child_occupancy)]
            codec.add_payload(depth, occ_list, cumulative_occupancy, child_occupancy)
            if codec.fmts[depth + 1].encodeUpperPayload():
                self.occupancies.append(cumulative_occupancy)
                output[payloads_key].append(cumulative_occupancy)
'''))
R('ue-drop','Uncompressed.encodeFiber',('''
        fiber_occupancy = 0
        occ_list = list()
''','''
        occ_list = []
'''))
R('ue-acc','Uncompressed.encodeFiber',('''
                if isinstance(cumulative_occupancy, int):
                    cumulative_occupancy = cumulative_occupancy + child_occupancy
                else:
                    cumulative_occupancy = [a + b for a, b in zip(cumulative_occupancy, child_occupancy)]
''','''
                cumulative_occupancy = self._accumulate(cumulative_occupancy, child_occupancy)
'''),('+','''
    @staticmethod
    def _accumulate(total, occupancy):
        if isinstance(total, int):
            return total + occupancy
        return [a + b for a, b in zip(total, occupancy)]
'''))
R('uh-base','Uncompressed.payloadToFiberHandle',('''
        to_ret = self.idx_in_rank * self.shape + payload
''','''
        base = self.idx_in_rank * self.shape
        to_ret = base + payload
'''),('''
                self.cache[key] = self.idx_in_rank * self.shape + i
''','''
                self.cache[key] = base + i
'''))
R('uh-guard','Uncompressed.payloadToFiberHandle',('''
        if self.next_fmt is not None and self.next_fmt.encodeUpperPayload():
            key''','''
        if self.next_fmt is None or not self.next_fmt.encodeUpperPayload():
            return to_ret
        else:
            key'''))
R('uc-chain','Uncompressed.coordToHandle',('''
        if coord < 0 or coord >= self.shape:
            return None
        return coord
''','''
        if 0 <= coord < self.shape:
            return coord
        return None
'''))
R('up-stats','Uncompressed.updatePayload',('''
        key = self.name + '_handleToPayload_' + str(handle)
        if self.next_fmt is not None:
            key = self.name + '_fiberHandle_' + str(handle)
            if self.next_fmt.encodeUpperPayload():
                self.cache.get(key)
                self.cache[key] = payload
            if self.count_payload_reads:
                self.stats[self.payloads_write_key] += 1
''','''
        if self.next_fmt is not None:
            if self.count_payload_reads:
                self.stats[self.payloads_write_key] += 1
            if self.next_fmt.encodeUpperPayload():
                key = self.name + '_fiberHandle_' + str(handle)
                self.cache.get(key)
                self.cache[key] = payload
'''))
R('up-tuple','Uncompressed.updatePayload',('''
        if isinstance(payload, tuple):
            self.occupancies[handle] = payload[0]
            self.payloads[handle] = payload[1]
        else:
            self.payloads[handle] = payload
''','''
        value = payload
        if isinstance(payload, tuple):
            self.occupancies[handle] = payload[0]
            value = payload[1]
        self.payloads[handle] = value
'''))
R('ugs-tern','Uncompressed.getSize',('''
        assert len(self.payloads) > 0
        assert len(self.coords) == 0
        size = len(self.occupancies)
        if not isinstance(self.payloads[0], CompressionFormat):
            size += len(self.payloads)
        return size
''','''
        num_payloads = len(self.payloads)
        assert num_payloads > 0
        assert not self.coords
        if isinstance(self.payloads[0], CompressionFormat):
            return len(self.occupancies)
        return len(self.occupancies) + num_payloads
'''))
R('uep-list','Uncompressed.encodePayload',('''
        output = list()
        for i in range(prev_ind, ind):
            output.append(0)
        output.append(payload)
        return output
''','''
        output = [0 for _ in range(prev_ind, ind)]
        output.append(payload)
        return output
'''))
R('uep-mul','Uncompressed.encodePayload',('''
        output = list()
        for i in range(prev_ind, ind):
            output.append(0)
        output.append(payload)
        return output
''','''
        return [0] * (ind - prev_ind) + [payload]
'''))

F('codec/formats/coord_list.py')
R('ce-direct','CoordinateList.encodeFiber',('''
            fiber_occupancy = fiber_occupancy + 1
            if depth == len(ranks) - 1:
''','''
            fiber_occupancy += 1
            if self.is_leaf:
'''))
R('ce-leaf','CoordinateList.encodeFiber',('''
        if depth < len(ranks) - 1:
            self.next_fmt = codec.fmts[depth + 1]
        else:
            self.is_leaf = True
        for''','''
        is_leaf = depth >= len(ranks) - 1
        if is_leaf:
            self.is_leaf = True
        else:
            self.next_fmt = codec.fmts[depth + 1]
        for'''))
R('ce-start','CoordinateList.encodeFiber',('''
        cumulative_occupancy = 0
        if depth < len(ranks) - 1 and codec.format_descriptor[depth + 1] == 'Hf':
            cumulative_occupancy = [0, 0]
        prev_nz''','''
        if depth < len(ranks) - 1 and codec.format_descriptor[depth + 1] == 'Hf':
            cumulative_occupancy = [0, 0]
        else:
            cumulative_occupancy = 0
        prev_nz'''))
R('ce-coord','CoordinateList.encodeFiber',('''
            coords = CoordinateList.encodeCoord(prev_nz, ind)
            output[coords_key].extend(coords)
            self.coords.extend(coords)
''','''
            output[coords_key].append(ind)
            self.coords.append(ind)
'''))
R('ce-order','CoordinateList.encodeFiber',('''
            coords = CoordinateList.encodeCoord(prev_nz, ind)
            output[coords_key].extend(coords)
            self.coords.extend(coords)
            fiber_occupancy = fiber_occupancy + 1
''','''
            fiber_occupancy = fiber_occupancy + 1
            coords = CoordinateList.encodeCoord(prev_nz, ind)
            self.coords.extend(coords)
            output[coords_key].extend(coords)
'''))
R('ce-help','CoordinateList.encodeFiber',('''
            if depth == len(ranks) - 1:
                output[payloads_key].append(val.value)
                self.payloads.append(val.value)
            else:
''','''
            if depth == len(ranks) - 1:
                self._add_leaf(output[payloads_key], val.value)
            else:
'''),('+','''
    def _add_leaf(self, array, value):
        array.append(value)
        self.payloads.append(value)
'''))
R('ce-cnt','CoordinateList.encodeFiber',('''
        self.fiber_occupancy = fiber_occupancy
        return fiber_occupancy
''','''
        self.fiber_occupancy = fiber_occupancy
        return self.fiber_occupancy
'''))
R('ch-else','CoordinateList.coordToHandle',('''
        elif coord > self.coords[-1]:
''','''
        last = len(self.coords) - 1
        if coord > self.coords[last]:
'''))
R('ch-mid','CoordinateList.coordToHandle',('''
            if self.coords[mid] == coord:
                return mid
            elif self.coords[mid] < coord:
                lo = mid + 1
            else:
                hi = mid - 1
''','''
            mid_coord = self.coords[mid]
            if mid_coord == coord:
                return mid
            if mid_coord < coord:
                lo = mid + 1
            else:
                hi = mid - 1
'''))
R('ch-split','CoordinateList.coordToHandle',('''
        lo = 0
        hi = len(self.coords) - 1
        mid = 0
        while lo <= hi:
            self.stats[self.coords_read_key] += 1
            mid = math.ceil((hi + lo) / 2)
            coord_key = self.name + '_handleToCoord_' + str(mid)
            coord_at_mid = self.cache.get(coord_key)
            self.cache[coord_key] = self.coords[mid]
            if self.coords[mid] == coord:
                return mid
            elif self.coords[mid] < coord:
                lo = mid + 1
            else:
                hi = mid - 1
        if coord > self.coords[mid]:
            mid += 1
        return mid
''','''
        return self._search(coord)

    def _search(self, coord):
        lo = 0
        mid = 0
        hi = len(self.coords) - 1
        while lo <= hi:
            mid = math.ceil((hi + lo) / 2)
            self.stats[self.coords_read_key] += 1
            coord_key = self.name + '_handleToCoord_' + str(mid)
            self.cache.get(coord_key)
            self.cache[coord_key] = self.coords[mid]
            if self.coords[mid] == coord:
                return mid
            if self.coords[mid] < coord:
                lo = mid + 1
            else:
                hi = mid - 1
        return mid + 1 if coord > self.coords[mid] else mid
'''))
R('ci-new','CoordinateList.insertElement',('''
            if self.is_leaf:
                self.payloads = self.payloads + [0]
            else:
                self.payloads = self.payloads + [self.next_fmt()]
''','''
            new_payload = 0 if self.is_leaf else self.next_fmt()
            self.payloads = self.payloads + [new_payload]
'''))
R('ci-none','CoordinateList.insertElement',('''
        if coord == None:
            return None
        print''','''
        if coord is None:
            return None
        print'''),('''
        if handle_to_add == None:
''','''
        if handle_to_add is None:
'''))
R('ci-fill','CoordinateList.insertElement',('''
                if i < len(self.coords):
                    self.cache[coords_key] = self.coords[i]
                    self.cache[payloads_key] = self.payloads[i]
                else:
                    self.cache[coords_key] = 0
                    self.cache[payloads_key] = 0
            print(self.cache)
            return len''','''
                present = i < len(self.coords)
                self.cache[coords_key] = self.coords[i] if present else 0
                self.cache[payloads_key] = self.payloads[i] if present else 0
            print(self.cache)
            return len'''))
R('ci-helper','CoordinateList.insertElement',('''
            for i in range(handle, end_of_line):
                coords_key = self.name + '_handleToCoord_' + str(i)
                payloads_key = self.name + '_handleToPayload_' + str(i)
                if i < len(self.coords):
                    self.cache[coords_key] = self.coords[i]
                    self.cache[payloads_key] = self.payloads[i]
                else:
                    self.cache[coords_key] = 0
                    self.cache[payloads_key] = 0
            print''','''
            self._fill_line(handle, end_of_line)
            print'''),('''
                for j in range(i, end_of_line):
                    coords_key = self.name + '_handleToCoord_' + str(j)
                    payloads_key = self.name + '_handleToPayload_' + str(j)
                    if j < len(self.coords):
                        self.cache[coords_key] = self.coords[j]
                        self.cache[payloads_key] = self.payloads[j]
                    else:
                        self.cache[coords_key] = 0
                        self.cache[payloads_key] = 0
''','''
                self._fill_line(i, end_of_line)
'''),('+','''
    def _fill_line(self, start, end):
        for i in range(start, end):
            coords_key = self.name + '_handleToCoord_' + str(i)
            payloads_key = self.name + '_handleToPayload_' + str(i)
            if i < len(self.coords):
                self.cache[coords_key] = self.coords[i]
                self.cache[payloads_key] = self.payloads[i]
            else:
                self.cache[coords_key] = 0
                self.cache[payloads_key] = 0
'''))
R('ci-stat','CoordinateList.insertElement',('''
            assert len(self.payloads) == len(self.coords)
            for i''','''
            assert len(self.payloads) == len(self.coords)
            self.stats[self.coords_write_key] += len(self.coords) - handle_to_add
            for i'''),('''
                        self.cache[payloads_key] = 0
            self.stats[self.coords_write_key] += len(self.coords) - handle_to_add
        return''','''
                        self.cache[payloads_key] = 0
        return'''))
R('ci-handle','CoordinateList.insertElement',('''
            print(self.cache)
            return len(self.coords) - 1
''','''
            print(self.cache)
            return handle
'''))
R('ci-insert','CoordinateList.insertElement',('''
            self.coords = self.coords[:handle_to_add] + [coord] + self.coords[handle_to_add:]
            if self.is_leaf:
                self.payloads = self.payloads[:handle_to_add] + [0] + self.payloads[handle_to_add:]
            else:
                self.payloads = self.payloads[:handle_to_add] + [self.next_fmt()] + self.payloads[handle_to_add:]
''','''
            payload = 0 if self.is_leaf else self.next_fmt()
            self.coords = self.coords[:handle_to_add] + [coord] + self.coords[handle_to_add:]
            self.payloads = self.payloads[:handle_to_add] + [payload] + self.payloads[handle_to_add:]
'''))
R('cp-chain','CoordinateList.updatePayload',('''
        if handle >= 0 and handle < len(self.payloads):
            self.stats[self.payloads_write_key] += 1
            self.payloads[handle] = payload
''','''
        if 0 <= handle < len(self.payloads):
            self.payloads[handle] = payload
            self.stats[self.payloads_write_key] += 1
'''))
R('cfh-early','CoordinateList.payloadToFiberHandle',('''
        if not self.next_fmt.encodeUpperPayload():
            fiber_handle = self.occupancy_so_far + payload
            print('\\t{} next level not encoded, payload {} ret {}'.format(self.name, payload, fiber_handle))
            return fiber_handle
        return payload
''','''
        if self.next_fmt.encodeUpperPayload():
            return payload
        fiber_handle = payload + self.occupancy_so_far
        print('\\t{} next level not encoded, payload {} ret {}'.format(self.name, payload, fiber_handle))
        return fiber_handle
'''))
R('cgs-one','CoordinateList.getSize',('''
        size = len(self.coords) + len(self.occupancies)
        if self.next_fmt == None or self.next_fmt.encodeUpperPayload():
            size += len(self.payloads)
        return size
''','''
        payload_words = 0
        if self.next_fmt is None or self.next_fmt.encodeUpperPayload():
            payload_words = len(self.payloads)
        return len(self.coords) + len(self.occupancies) + payload_words
'''))

F('codec/formats/bitvector.py')
R('bi-lines','Bitvector.__init__',('''
        self.bits_per_word = 32
        self.bits_per_line = self.bits_per_word * self.words_in_line
''','''
        bits_per_word = 32
        self.bits_per_word = bits_per_word
        self.bits_per_line = bits_per_word * self.words_in_line
'''))
R('bi-occ','Bitvector.__init__',('''
        self.occupancies = list()
''',''))
R('be-merge','Bitvector.encodeFiber',('''
        if depth < len(ranks) - 1:
            self.next_fmt = codec.fmts[depth + 1]
        if depth < len(ranks) - 1:
            if codec.format_descriptor[depth + 1] == 'Hf' or codec.format_descriptor[depth + 1] == 'T':
                cumulative_occupancy = [0, 0]
''','''
        if depth < len(ranks) - 1:
            self.next_fmt = codec.fmts[depth + 1]
            if codec.format_descriptor[depth + 1] in ('Hf', 'T'):
                cumulative_occupancy = [0, 0]
'''))
R('be-occ','Bitvector.encodeFiber',('''
        occ_list = list()
        occ_list.append(cumulative_occupancy)
''','''
        occ_list = [cumulative_occupancy]
'''))
R('be-if','Bitvector.encodeFiber',('''
            self.coords[ind] = 1
            fiber_occupancy += 1
            if depth == len(ranks) - 1:
                output[payloads_key].append(val.value)
                self.payloads.append(val.value)
            prev_nz = ind + 1
''','''
            else:
                output[payloads_key].append(val.value)
                self.payloads.append(val.value)
            self.coords[ind] = 1
            fiber_occupancy += 1
'''))
R('be-first','Bitvector.encodeFiber',('''
            self.coords[ind] = 1
            fiber_occupancy += 1
            if depth''','''
            if depth'''),('''
        for ind, val in a:
            if depth''','''
        for ind, val in a:
            fiber_occupancy += 1
            self.coords[ind] = 1
            if depth'''))
R('be-bits','Bitvector.encodeFiber',('''
        self.coords = [0] * dim_len
        for''','''
        bits = [0] * dim_len
        self.coords = bits
        for'''),('''
            self.coords[ind] = 1
''','''
            bits[ind] = 1
'''),('''
        output[coords_key].extend(self.coords)
''','''
        output[coords_key].extend(bits)
'''))
R('bw-int','Bitvector.getWordStart',('''
        return math.floor(float(index) / self.bits_per_line) * self.bits_per_line
''','''
        line = math.floor(float(index) / self.bits_per_line)
        return line * self.bits_per_line
'''))
R('bc-min','Bitvector.countCoordsCache',('''
        range_end = min(handle_start + self.bits_per_line, len(self.coords))
        self.cache[cache_key] = self.coords[handle_start:range_end]
''','''
        self.cache[cache_key] = self.coords[handle_start:handle_start + self.bits_per_line]
'''))
R('bc-found','Bitvector.countCoordsCache',('''
        found = self.cache.get(cache_key)
        range_end''','''
        self.cache.get(cache_key)
        range_end'''),('''
        self.cache[cache_key] = self.coords[handle_start:range_end]
        self.stats[self.coords_read_key] += 1
''','''
        self.stats[self.coords_read_key] += 1
        self.cache[cache_key] = self.coords[handle_start:range_end]
'''))
R('bh-nest','Bitvector.handleToCoord',('''
        if handle == None or handle >= len(self.coords):
            return None
        self.countCoordsCache(handle)
        return handle
''','''
        if handle is not None and handle < len(self.coords):
            self.countCoordsCache(handle)
            return handle
        return None
'''))
R('bs-ceil','Bitvector.getSize',('''
        size = math.ceil(len(self.coords) / self.bits_per_word) + len(self.occupancies)
        if self.next_fmt == None or self.next_fmt.encodeUpperPayload():
            size += len(self.payloads)
        return size
''','''
        num_words = math.ceil(len(self.coords) / self.bits_per_word)
        size = num_words + len(self.occupancies)
        if self.next_fmt is not None and not self.next_fmt.encodeUpperPayload():
            return size
        return size + len(self.payloads)
'''))
R('bu-chain','Bitvector.updatePayload',('''
        if payload_handle == None:
            return None
        if payload_handle >= 0 and payload_handle < len(self.payloads):
            self.payloads[payload_handle] = payload
        return payload_handle
''','''
        if payload_handle is not None and 0 <= payload_handle < len(self.payloads):
            self.payloads[payload_handle] = payload
        return payload_handle
'''))
R('bl-order','Bitvector.countLeft',('''
            result += self.coords[i]
            if i % self.bits_per_line == 0:
                self.countCoordsCache(i)
''','''
            if not i % self.bits_per_line:
                self.countCoordsCache(i)
            result = result + self.coords[i]
'''))
R('bl-sum','Bitvector.countLeft',('''
        result = 0
        for i in range(0, coords_handle):
            result += self.coords[i]
            if i % self.bits_per_line == 0:
                self.countCoordsCache(i)
        return result
''','''
        for i in range(0, coords_handle, self.bits_per_line):
            self.countCoordsCache(i)
        return sum(self.coords[:coords_handle])
'''))
R('bss-local','Bitvector.setupSlice',('''
        self.iter_handle.coords_handle = self.coordToHandle(base)
        self.iter_handle.payloads_handle = self.countLeft(self.coords_handle)
''','''
        handle = self.iter_handle
        handle.coords_handle = self.coordToHandle(base)
        handle.payloads_handle = self.countLeft(self.coords_handle)
'''))
R('bn-local','Bitvector.nextInSlice',('''
        if self.iter_handle.coords_handle >= len(self.coords) or self.iter_handle.payloads_handle >= len(self.payloads):
            return None
        if self.num_to_ret != None and self.num_to_ret < self.num_ret_so_far:
            return None
        while self.iter_handle.coords_handle < len(self.coords) and self.coords[self.iter_handle.coords_handle] != 1:
            self.countCoordsCache(self.iter_handle.coords_handle)
            self.iter_handle.coords_handle += 1
        if self.iter_handle.coords_handle < len(self.coords):
            to_ret = TwoHandle(self.iter_handle.coords_handle, self.iter_handle.payloads_handle)
            self.iter_handle.coords_handle += 1
            self.iter_handle.payloads_handle += 1
            self.num_ret_so_far += 1
            return to_ret
        else:
            return None
''','''
        cursor = self.iter_handle
        if cursor.coords_handle >= len(self.coords) or cursor.payloads_handle >= len(self.payloads):
            return None
        if self.num_to_ret is not None and self.num_to_ret < self.num_ret_so_far:
            return None
        while cursor.coords_handle < len(self.coords) and self.coords[cursor.coords_handle] != 1:
            self.countCoordsCache(cursor.coords_handle)
            cursor.coords_handle += 1
        if cursor.coords_handle >= len(self.coords):
            return None
        to_ret = TwoHandle(cursor.coords_handle, cursor.payloads_handle)
        cursor.coords_handle += 1
        cursor.payloads_handle += 1
        self.num_ret_so_far += 1
        return to_ret
'''))
R('bn-skip','Bitvector.nextInSlice',('''
        while self.iter_handle.coords_handle < len(self.coords) and self.coords[self.iter_handle.coords_handle] != 1:
            self.countCoordsCache(self.iter_handle.coords_handle)
            self.iter_handle.coords_handle += 1
        if self''','''
        self._skip_zeros()
        if self'''),('+','''
    def _skip_zeros(self):
        while self.iter_handle.coords_handle < len(self.coords):
            if self.coords[self.iter_handle.coords_handle] == 1:
                break
            self.countCoordsCache(self.iter_handle.coords_handle)
            self.iter_handle.coords_handle += 1
'''))
R('bie-guard','Bitvector.insertElement',('''
        if self.coords[coord_handle_to_add] == 0:
            self.payloads = self.payloads[:payload_to_add_handle] + [0] + self.payloads[payload_to_add_handle:]
            self.stats[self.payloads_write_key] += len(self.payloads) - payload_to_add_handle
            self.coords[coord_handle_to_add] = 1
        return TwoHandle(coord_handle_to_add, payload_to_add_handle)
''','''
        handle = TwoHandle(coord_handle_to_add, payload_to_add_handle)
        if self.coords[coord_handle_to_add] != 0:
            return handle
        self.coords[coord_handle_to_add] = 1
        self.payloads = self.payloads[:payload_to_add_handle] + [0] + self.payloads[payload_to_add_handle:]
        self.stats[self.payloads_write_key] += len(self.payloads) - payload_to_add_handle
        return handle
'''))
