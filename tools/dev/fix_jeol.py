import sys
k=sys.argv[1]
def edit(p, *reps):
    s=open(p).read()
    for a,b in reps:
        n=b[1] if isinstance(b,tuple) else 1
        b=b[0] if isinstance(b,tuple) else b
        assert s.count(a)==n,(s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
p='rsciio/jeol/_api.py'
if k in('em','all'):
    edit(p,('em_image = np.zeros((n_frames, width, height), dtype=EM_dtype)','em_image = np.zeros((n_frames, height, width), dtype=EM_dtype)'))
if k in('lazyframe','all'):
    edit(p,('''    for value in rawdata:
        count += 1
        value_type''','''    x = 0
    y = 0
    for value in rawdata:
        value_type'''),('''            if y >= width:
                y = -1''','''            if y >= height:
                y = -1'''),('''            em_image[y, x] += value
            has_em_image = True
        elif value_type == 0xB000:  # spectrum image
            z = value // rebin_energy + dz
            if 0 <= z and z < channel_number:
                data.append([y, x, z])
    if previous_y == MAX_VAL - height_norm and (
        previous_x == MAX_VAL - width_norm or not has_em_image
    ):''','''            em_image[y, x] += value * countup
            has_em_image = True
        elif value_type == 0xB000:  # spectrum image
            z = value // rebin_energy + dz
            if 0 <= z and z < channel_number:
                data.append([y, x, z])
        count += 1
    if previous_y >= MAX_VAL - height_norm and (
        previous_x >= MAX_VAL - width_norm or not has_em_image
    ):'''),('''def _readframe_lazy(
    rawdata,
    _1,
    _2,
''','''def _readframe_lazy(
    rawdata,
    countup,
    _2,
'''),('''    _1 : dummy parameter, not used
    _2 :''','''    countup : 1 for summing up the SEM/TEM image, -1 to cancel selected frame
    _2 :'''),('''        d = np.asarray(d)
        # check if''','''        d = np.asarray(d, dtype=np.int64).reshape(-1, 3)
        # check if'''))
if k in('count','all'):
    edit(p,('''                hypermap[:target_frame_num, :height, :width],
                em_image[:target_frame_num, :height, :width],
                has_em_image,
                frame_num,
''','''                hypermap[:target_frame_num, :height, :width],
                em_image[:target_frame_num, :height, :width],
                has_em_image,
                target_frame_num,
'''),('''    if sum_frames:
        em_image = em_image[0]

    import''','''    if sum_frames:
        em_image = em_image[0, :height, :width]
    else:
        em_image = em_image[:frame_count, :height, :width]

    import'''),('''        da.from_array(ar_s, asarray=False),
        em_image,
        has_em_image,
        sweep,
''','''        da.from_array(ar_s, asarray=False),
        em_image,
        has_em_image,
        frame_count,
'''),('''        n_frames = sweep + 1

    if lazy''','''        # the same frame can be read several times
        n_frames = len(frame_list)

    if lazy'''))
if k in('args','all'):
    edit(p,('''            frame_start_index = np.asarray(frame_start_index)

''','''            # the array passed by the user must not be changed
            frame_start_index = np.array(frame_start_index)

'''),('''    frame_shifts = np.asarray(frame_shifts)
    frame_list''','''    # the array passed by the user must not be changed
    frame_shifts = np.array(frame_shifts)
    frame_list'''))
if k in('shifts','all'):
    edit(p,('''            fr = np.zeros((max_frame, 3), dtype=np.int16)
            fr[''','''            fr = np.zeros((max(max_frame, len(frame_shifts)), 3), dtype=np.int16)
            fr['''))
if k in('axes','all'):
    edit(p,('''        yscale = scale / height
        units = "µm"

        ch_mod''','''        yscale = scale / height
        units = "µm"
        # all the pixels scanned, whatever the downsampling
        pixels_per_frame = width * downsample_width * height * downsample_height

        ch_mod'''),('''"scale": pixel_time * height * width / 1e3,''','''"scale": pixel_time * pixels_per_frame / 1e3,'''),
    ('"offset": origin[1],','"offset": origin[0] * yscale,'),('''                    "size": width,
                    "offset": origin[0],''','''                    "size": width,
                    "offset": origin[1] * xscale,'''))
if k in('z','all'):
    edit(p,('''            # Z
            _ = np.fromfile(fd, "<H", 1)[0]
''','''            z = np.fromfile(fd, "<H", 1)[0]
'''),('''                z = np.fromfile(fd, "<H", 1)[0]
                e_length''','''                z_line = np.fromfile(fd, "<H", 1)[0]
                e_length'''),('''                    "Z": z,
                    "detection": detect,''','''                    "Z": z_line,
                    "detection": detect,'''))
if k in('list','all'):
    edit(p,('''        if length == 0:  # no data
            break
''','''        if length == 0:  # no data
            continue
'''))
if k in('list','all'):
    edit(p,('''read all frames individually, including the last partially completed frame."
                )
            break
''','''read all frames individually, including the last partially completed frame."
                )
            continue
'''),('''    length = np.sum([len(d) for d in data_list])
''','''    length = sum(len(d) for d in data_list)
'''))
