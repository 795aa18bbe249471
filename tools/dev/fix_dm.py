import sys
k=sys.argv[1]
def edit(p, *reps):
    s=open(p).read()
    for a,b in reps:
        assert s.count(a)==1,(s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
p='rsciio/digitalmicrograph/_api.py'
if k in('endian','all'):
    edit(p,('''            28: "complex128",  # not numpy: 16-Byte packed complex (FFT data)
        }
        return imdtype_dict[self.imdict.ImageData.DataType]
''','''            28: "complex128",  # not numpy: 16-Byte packed complex (FFT data)
        }
        dtype = imdtype_dict[self.imdict.ImageData.DataType]
        # the data is stored with the byte order of the file
        return np.dtype(dtype).newbyteorder(self.imdict.ImageData.Data.endian)
'''),('''    def dtype(self):
        # Signal2D data types''','''    def dtype(self):
        if self.imdict.ImageData.DataType == 0:
            raise NotImplementedError("Reading data of this type is not implemented.")
        # Signal2D data types''')) if False else edit(p,('''            0: "not_implemented",  # null
''',''),('''        if self.imdict.ImageData.DataType == 4:
            raise Not''','''        if self.imdict.ImageData.DataType in (0, 4):
            raise Not'''),('''            28: "complex128",  # not numpy: 16-Byte packed complex (FFT data)
        }
        return imdtype_dict[self.imdict.ImageData.DataType]
''','''            28: "complex128",  # not numpy: 16-Byte packed complex (FFT data)
        }
        dtype = np.dtype(imdtype_dict[self.imdict.ImageData.DataType])
        # the data is stored in the byte order of the file
        return dtype.newbyteorder(self.imdict.ImageData.Data.endian)
'''))
if k in('lazy5','all'):
    edit(p,('''            if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                shape[-1] = int(shape[-1] / 2 + 1)
''','''            if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                shape[-1] = int(shape[-1] / 2 + 1)
            elif self.imdict.ImageData.DataType == 5:  # Old packed complex
                # the file holds a flat list of values
                shape = [int(np.prod(shape))]
                chunks = "auto"
'''),('''            return self.unpack_packed_complex(data)
''','''            if lazy:
                return da.from_delayed(
                    delayed(self.unpack_packed_complex)(data, self.shape),
                    shape=self.shape,
                    dtype="complex64",
                )
            return self.unpack_packed_complex(data, self.shape)
'''),('''    def unpack_packed_complex(self, tmpdata):
        shape = self.shape
''','''    @staticmethod
    def unpack_packed_complex(tmpdata, shape):
'''),('''        N = int(self.shape[0] / 2)  # think''','''        N = int(shape[0] / 2)  # think'''),('''import dateutil.parser
import numpy as np
from box import Box
''','''import dask.array as da
import dateutil.parser
import numpy as np
from box import Box
from dask import delayed
'''))
if k in('odd','all'):
    edit(p,('''        return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:-1])))
''','''        # the last column is not repeated when the width is even (Nyquist frequency)
        stop = self.shape[1] - packed_shape[1] + 1
        return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:stop])))
'''))
if k in('arrays','all'):
    edit(p,('''                            el_length, enc_eltype = self.parse_array_definition()
                            size = self.read_l_or_q(self.f, "big")
                            data = self.read_array(
                                size=size,
                                enc_eltype=enc_eltype,
                                extra={"size": el_length},
''','''                            el_length, el_eltype = self.parse_array_definition()
                            size = self.read_l_or_q(self.f, "big")
                            data = self.read_array(
                                size=size,
                                enc_eltype=enc_eltype,
                                extra={"size": el_length, "enc_eltype": el_eltype},
'''))
if k in('utf16','all'):
    edit(p,('''                    data = "".join([chr(i) for i in data])
''','''                    # of UTF-16 code units
                    data = np.array(data, dtype="<u2").tobytes()
                    data = data.decode("utf-16-le", errors="surrogatepass")
'''))
if k in('mic','all'):
    edit(p,('''            "Microscope Info" in self.imdict.ImageTags
            and "Illumination Mode" in self.imdict.ImageTags["Microscope Info"]
        ):
            microscope = (
                "SEM"
                if self._get_mode(
                    self.imdict.ImageTags["Microscope Info"]["Illumination Mode"]
                )
''','''            "Microscope Info" in image_tags_dict
            and "Illumination Mode" in image_tags_dict["Microscope Info"]
        ):
            microscope = (
                "SEM"
                if self._get_mode(
                    image_tags_dict["Microscope Info"]["Illumination Mode"]
                )
'''))

if k in('aper','all'):
    edit(p,('''                            string.replace("mm", ""),
''','''                            # an empty label is read as an empty list
                            string.replace("mm", "") if string else "",
'''))

if k in('dots','all'):
    import re
    s=open(p).read()
    s=s.replace('self.imdict = Box(imdict, box_dots=True)','self.imdict = Box(imdict)')
    s,n=re.subn(r'self\.imdict\.get\(("ImageTags\.)', r'self._get_tag(\1', s)
    print(n)
    s=s.replace('''        self._order = order if order else "C"
''','''        self._order = order if order else "C"

    def _get_tag(self, path, default=None):
        # The tag names can contain any character except the dot
        tag = self.imdict
        for name in path.split("."):
            if not isinstance(tag, dict) or name not in tag:
                return default
            tag = tag[name]
        return tag
''')
    open(p,'w').write(s)
