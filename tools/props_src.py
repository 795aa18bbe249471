RT = "a handful of fixed signals are saved and reloaded; shapes, dtypes, byte orders, calibrations and metadata values between the samples are never exercised"
RD = "tests read a few recorded files and compare selected values; every other size, dtype, layout option and field value of the format is untested"

P("C01", "HSpy files give back exactly the signal that was saved",
  "Saving a signal dictionary to an .hspy file and loading it, eagerly or lazily and whatever the chunking and compression options, gives back the same data (values, dtype, shape, including RGB and ragged arrays), axes, metadata, original metadata, learning results, attributes and models. Nested dictionaries, lists and tuples keep their type, order and element values, apart from the documented conversion of homogeneous containers through a numpy array. Lazy loading returns dask arrays whose computed values are those of eager loading.",
  "for all signals: dtypes, 1-4 dimensions, eager or dask data, uniform/data/functional axes, nested metadata trees with any supported value type, keys and titles, chunks and compression", RT,
  ["rsciio/hspy/_api.py", "rsciio/_hierarchical.py"],
  [("dict2group / group2dict tagging of value types", "rsciio/_hierarchical.py"), ("get_signal_chunks / overwrite_dataset", "rsciio/_hierarchical.py")],
  ["rsciio.hspy.file_writer", "rsciio.hspy.file_reader"])
P("C02", "ZSpy stores give back exactly the signal that was saved",
  "Saving a signal dictionary to a .zspy directory, zip or in-memory store and loading it, eagerly or lazily and whatever the chunks and compressor, gives back the same data (values, dtype, shape, including RGB and ragged arrays), axes, metadata, original metadata, learning results, attributes and models. Nested dictionaries, lists and tuples keep their type, order and element values, apart from the documented conversion of homogeneous containers through a numpy array.",
  "for all signals as for the hspy format (binary strings excepted) and for directory, zip and memory stores", RT,
  ["rsciio/zspy/_api.py", "rsciio/_hierarchical.py"],
  [("dict2group / group2dict tagging of value types", "rsciio/_hierarchical.py"), ("ZspyWriter / store handling", "rsciio/zspy/_api.py")],
  ["rsciio.zspy.file_writer", "rsciio.zspy.file_reader"])
P("C03", "Updating an hspy/zspy file changes only what was updated",
  "After any sequence of writes to one .hspy or .zspy file - full overwrites, metadata/axes-only updates with write_dataset=False, and lazy loading followed by saving back onto the same file - loading the file gives the data of the last write that wrote data and the metadata and axes of the last write. Updating with write_dataset=False never alters the stored data, and no earlier content reappears.",
  "for all sequences of write, metadata-only update, lazy-load-and-update and reload on the same file with random signals", "the tests update one file once; histories of several writes of differing shapes and dtypes are not exercised",
  ["rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/_hierarchical.py"],
  [("write_signal / overwrite_dataset / delete existing keys", "rsciio/_hierarchical.py"), ("mode handling of file_writer", "rsciio/hspy/_api.py")],
  ["rsciio.hspy.file_writer", "rsciio.zspy.file_writer", "file_reader"], over=("histories", "inputs"))
P("C04", "Blockfile round trip keeps patterns, virtual image and calibration",
  "Writing a signal to a .blo file and reading it back, eagerly or lazily, gives the same diffraction patterns at the same scan positions, the same axes calibration and header values, and the virtual bright field image given or computed. Intensity rescaling options map data onto 0-255 as documented, and data that is not uint8 is never stored without the requested conversion.",
  "for all scan and detector shapes, dtypes, intensity_scaling and vbf options, calibrations", RT,
  ["rsciio/blockfile/_api.py", "rsciio/utils/_tools.py"], [("header and data block layout", "rsciio/blockfile/_api.py")], ["rsciio.blockfile.file_writer", "rsciio.blockfile.file_reader"])
P("C05", "EMSA/MAS (msa) round trip keeps spectrum, calibration and keywords",
  "Writing a spectrum to an .msa file in Y or XY format and reading it back gives the same intensities to the written precision, the same axis scale, offset, units and size, and the same mapped metadata. Parsing a valid EMSA/MAS file keeps every keyword, its value and unit, in any line ending or encoding.",
  "for all spectra lengths, values, calibrations, metadata, formats, separators and encodings", RT,
  ["rsciio/msa/_api.py"], [("parse_msa_string / file_writer", "rsciio/msa/_api.py")], ["rsciio.msa.file_writer", "rsciio.msa.file_reader"])
P("C06", "Ripple (rpl/raw) round trip keeps data, axes and metadata",
  "Writing a signal to a .rpl/.raw pair and reading it back, eagerly, lazily or memory mapped, gives the same data, dtype and axes and the metadata the rpl header can hold. Reading any valid rpl header interprets record-by, byte order, data type, data length and offset as documented.",
  "for all dtypes, dimensions, signal dimensions, byte orders, offsets, record-by modes and metadata", RT,
  ["rsciio/ripple/_api.py"], [("parse_ripple / read_raw / write_rpl", "rsciio/ripple/_api.py")], ["rsciio.ripple.file_writer", "rsciio.ripple.file_reader"])
P("C07", "TIFF round trip keeps images, stacks, RGB and calibration",
  "Writing a signal to a TIFF file and reading it back gives the same pixel values, dtype, shape (RGB data included) and the same axes scale, offset, units and order, the same whether read eagerly, lazily or page by page (multipage_as_list). The date and time, quantity and noise model of the metadata and extra tags are kept. Files of other software, grey or RGB with their colours interleaved or in separate planes, in one or several series, are read with all their pixels and calibrated from their ImageJ or resolution tags only as force_read_resolution documents.",
  "for all dtypes, 2D images and 3D stacks, RGB kinds, calibrations, compression and byte order options; ImageJ, resolution-tagged and plain files written by other software", RT,
  ["rsciio/tiff/_api.py"], [("_get_tags_dict / _read_serie / axes guess", "rsciio/tiff/_api.py")], ["rsciio.tiff.file_writer", "rsciio.tiff.file_reader"])
P("C08", "Image files (PNG and similar) keep the pixel values",
  "Writing a 2D image (bool, 8 or 16 bit grey, RGB or RGBA, of any memory layout or lazy) to a lossless standard image format and reading it back, eagerly or lazily, gives the same pixel values with the same shape, orientation, colour channels and dtype; only RGB(A) data whose colour channels are all equal comes back as grey. Images without calibration tags get axes y and x of unit scale, files with several frames (animations) are stacks with one more navigation axis and the transparency of grey images is discarded. Exports with a scalebar, output size or imshow options have the requested size in pixels (the data size by default), and the dictionaries of options given by the user can be reused.",
  "for all shapes, 8/16-bit grey and RGB(A) dtypes, lossless formats, and combinations of scalebar, output_size and imshow_kwds", RT,
  ["rsciio/image/_api.py", "rsciio/utils/_image.py"], [("file_writer / _read_data", "rsciio/image/_api.py"), ("_parse_axes_from_metadata", "rsciio/utils/_image.py")], ["rsciio.image.file_writer", "rsciio.image.file_reader"])
P("C09", "EMD (NCEM) round trip keeps data, dimensions and metadata",
  "Writing a signal to an NCEM EMD file and reading it back, eagerly or lazily, gives the same data and dtype, the same axes in the same order (name, units, scale, offset), the title and the microscope, sample, user and comments attributes. In a file holding several datasets every valid dataset is returned separately with its own dimensions, whichever of the two dimension numberings it uses, and any subset selected by dataset_path is returned in the order asked for.",
  "for all dtypes, shapes, calibrations, chunking, numbers, names and paths of datasets", RT,
  ["rsciio/emd/_emd_ncem.py", "rsciio/emd/_api.py"], [("EMD_NCEM.read_file / write_file", "rsciio/emd/_emd_ncem.py")], ["rsciio.emd.file_writer", "rsciio.emd.file_reader"])
P("C10", "NeXus round trip keeps data, axes, metadata and selected datasets",
  "Writing signals to a NeXus file and reading it back, eagerly or lazily, gives for each signal the same data, named axes (scale, offset, units, navigation or signal), metadata and original metadata; use_default, save_original_metadata and skip_metadata_key do what they document. Reading or listing any HDF5/NeXus file returns exactly the datasets selected by key or path, in file order, links included unless hardlinks_only; the metadata listing holds every attribute and dataset outside NXdata groups, restricted to the paths matching the search keys. NXdata axes follow the axes, _indices and interpretation attributes.",
  "for all signals, HDF5 trees, links, dataset and metadata keys, spellings of the NXdata attributes, lazy or eager", RT,
  ["rsciio/nexus/_api.py", "rsciio/utils/hdf5.py"], [("_load_metadata / _find_data / _write_signal / _get_nav_list", "rsciio/nexus/_api.py")], ["rsciio.nexus.file_writer", "rsciio.nexus.file_reader", "rsciio.utils.hdf5"])
P("C11", "MRCZ round trip keeps data and header calibration",
  "Writing a 2D image or 3D stack to .mrcz and reading it back, eagerly or lazily, gives the same data (dtype included; double precision is stored as single), the same number, size, names, scales (in any length unit, stored as nm) of axes and the metadata the footer holds. Byte order, lazy data and asynchronous writing do not change what is read.",
  "for all supported dtypes, shapes, calibrations, endianness and do_async values", RT,
  ["rsciio/mrcz/_api.py"], [("file_writer / file_reader", "rsciio/mrcz/_api.py")], ["rsciio.mrcz.file_writer", "rsciio.mrcz.file_reader"])
P("C12", "npy arrays are read and written exactly, with default calibration",
  "Writing a signal to .npy and reading it back, eagerly or lazily, gives the array numpy itself would load with the same dtype, order and shape, structured and Fortran-ordered arrays included, with uncalibrated axes for every dimension. Files saved by numpy itself in any format version are read the same way.",
  "for all dtypes, shapes and memory orders", RT,
  ["rsciio/numpy/_api.py"], [("file_reader / file_writer", "rsciio/numpy/_api.py")], ["rsciio.numpy.file_writer", "rsciio.numpy.file_reader"])
P("C13", "Semper unf round trip keeps picture, class and calibration",
  "Writing a signal of up to three dimensions to a Semper .unf file and reading it back, eagerly or lazily, gives the same data values (in the documented storage dtype), shape, axes scale, offset, units and title. Files of any Semper version, byte order, form, range and label layout are decoded as the format describes.",
  "for all shapes, forms, byte orders, calibrations and titles", RT,
  ["rsciio/semper/_api.py"], [("SemperFormat load/save", "rsciio/semper/_api.py")], ["rsciio.semper.file_writer", "rsciio.semper.file_reader"])
P("C14", "TVIPS round trip keeps frames, scan shape and calibration",
  "Writing an image, movie or scan to .tvips files, split over as many files as the maximum size requires, and reading it back, eagerly or lazily, gives the same frames at the same scan positions with the same calibration and mapped metadata. The scan shape, scan start frame, winding (snake) and hysteresis options rearrange frames exactly as documented, also for files of other software whose scan shape is taken from the rotator index.",
  "for all frame counts and sizes, dtypes, file size limits, scan shapes, hysteresis and start options", RT,
  ["rsciio/tvips/_api.py"], [("file_writer / file_reader", "rsciio/tvips/_api.py")], ["rsciio.tvips.file_writer", "rsciio.tvips.file_reader"])
P("C15", "Digital Surf sur/pro round trip keeps data, axes and metadata",
  "Writing a supported signal to a .sur or .pro file, compressed or not, and reading it back gives the same data (within the documented integer quantisation for floats), axes, units, metadata, comments and private zone. Files of other software holding any supported object type, single or in series, compressed or not, are decoded to the values, calibrations and header fields stored.",
  "for all signal kinds (profile, surface, series, spectra, hyperspectral, RGB, intensity), dtypes, calibrations, modes", RT,
  ["rsciio/digitalsurf/_api.py"], [("DigitalSurfHandler", "rsciio/digitalsurf/_api.py")], ["rsciio.digitalsurf.file_writer", "rsciio.digitalsurf.file_reader"])
P("C16", "PRZ round trip keeps data, axes and metadata",
  "Writing a signal of one or two signal dimensions, lazy or not, to .prz and reading it back, eagerly or lazily, gives the same data and dtype, the same order of dimensions, navigation and signal axes, calibration (in base units) and mapped metadata. Files of Panta Rhei, compressed or not and with their dimensions in any order, are returned with the navigation dimensions first, each axis keeping its name and calibration (pixel factors applied) and the energy axis of EELS data flipped.",
  "for all dtypes, dimensions, axis kinds and metadata", RT,
  ["rsciio/pantarhei/_api.py"], [("import_pr / export_pr", "rsciio/pantarhei/_api.py")], ["rsciio.pantarhei.file_writer", "rsciio.pantarhei.file_reader"])
P("C17", "USID files keep every signal appended to them",
  "Signals written one after another into a USID file come back, all in the order written or singly by dataset_path, lazily or eagerly, with their data (without singleton dimensions), axes (name, units, scale and offset as 32 bit values; navigation first) and their flattened metadata and original metadata among the parameters. Files of other software give one signal per field of compound data with its quantity and units, and non uniform dimensions are taken as indices, or refused with ignore_non_uniform_dims=False.",
  "for all shapes, numbers of navigation and signal axes, data types, calibrations, parameters, histories of writing and orders of dimensions", "the tests write a few fixed 2 to 4 dimensional signals",
  ["rsciio/usid/_api.py"], [("file_writer / _axes_list_to_dimensions / file_reader", "rsciio/usid/_api.py")], ["rsciio.usid.file_reader", "rsciio.usid.file_writer"])
P("C18", "DM3/DM4 files give every image with its calibration and tags",
  "Reading any DigitalMicrograph file, version 3 or 4 and either byte order, eagerly or lazily (in the order and chunks asked for), returns every image except thumbnails with the pixel values and dtype of its data type, its shape, title, signal type and per axis size, scale, offset, units and navigation or signal role. original_metadata holds the complete tag tree with every tag decoded to its value. The metadata mapping gives the microscope, acquisition and detector values stored.",
  "for all tag trees, tag types, data types, dimensions, calibrations, byte orders, versions and numbers of images", "the tests read fixed files, nearly all little endian and of common data types",
  ["rsciio/digitalmicrograph/_api.py"], [("DigitalMicrographReader / ImageObject", "rsciio/digitalmicrograph/_api.py")], ["rsciio.digitalmicrograph.file_reader"])
P("C19", "Bruker bcf maps and spx spectra are decoded as recorded",
  "Reading a bcf file returns the images and every selected hyperspectral map (index, select_type) with each pixel's counts at its line, column and channel, for the 16 bit, 12 bit and instructed packings with additional pulses, any downsample (counts of the merged pixels added) and cutoff_at_kV, the same with the compiled and the pure Python parser, read lazily or eagerly. The files of the container are found whatever the order, chunk size and compression. Axes, elements and metadata of maps, images and spx spectra are those of the header.",
  "for all packings, shapes, counts, container layouts, header contents and options", "the tests read seven recorded files and compare the parsers on two of them",
  ["rsciio/bruker/_api.py", "rsciio/bruker/unbcf_fast.pyx"], [("SFS_reader / HyperHeader / BCF_reader / py_parse_hypermap", "rsciio/bruker/_api.py"), ("parse_to_numpy", "rsciio/bruker/unbcf_fast.pyx")], ["rsciio.bruker.file_reader"])
P("C20", "JEOL projects, maps, images and spectra are decoded event by event",
  "Every X-ray event of a JEOL pts file is counted once at its frame, pixel and channel under any combination of rebin_energy, downsample, cutoff_at_kV, frame_list, frame_shifts, frame_start_index, sum_frames and only_valid_data, the same read eagerly or lazily, and the simultaneous electron images likewise when read_em_image is asked for. The img, map, eds and asw files give the values, axes calibration, elements and metadata stored. An asw project returns the files it lists.",
  "for all event streams, map shapes, numbers of frames, incomplete last frames and options", "the tests read a handful of recorded maps with few option combinations",
  ["rsciio/jeol/_api.py"], [("_readcube_dense / _readcube_lazy / _readframe", "rsciio/jeol/_api.py")], ["rsciio.jeol.file_reader"])
P("C21", "Velox EMD files give images, spectra and maps counted event by event",
  "Reading a Velox EMD file, eagerly or lazily, returns every image (stacks, FFT and DPC included), EDS spectrum, EELS map and EDS map selected by select_type with its values, shape, axes calibration, title, date and mapped metadata. Every X-ray event of the streams is counted once at its frame, pixel and channel for any first_frame, last_frame, sum_frames, sum_EDS_detectors, rebin_energy and SI_dtype.",
  "for all event streams, numbers of detectors and frames, shapes, file versions, options and time zones", "the tests read recorded files, most of which are not available, with few option combinations",
  ["rsciio/emd/_emd_velox.py", "rsciio/utils/_fei_stream_readers.py"], [("FeiEMDReader", "rsciio/emd/_emd_velox.py"), ("stream_to_array / stream_to_sparse_COO_array", "rsciio/utils/_fei_stream_readers.py")], ["rsciio.emd.file_reader"])
P("C22", "TIA series are read with their values, calibration and description",
  "A TIA ser file (spectra or images, one or two navigation dimensions, complete or interrupted, 32 or 64 bit offsets, any data type), read eagerly or lazily, returns every element at its place with the values stored (images with their lower row last in the file first in the array), and per axis size, units, scale and offset, converted to nm and 1 / nm together with the units. Elements which were not acquired are left out of series with only_valid_data=True and otherwise zero, or NaN for floats. An emi file returns each of its numbered series in order, with the units, date and metadata of the object of that number.",
  "for all element counts, shapes, data types, calibrations, tags, layouts of the file, numbers of series and descriptions", "the tests read recorded files, of which most have zero offsets, complete data and a single series",
  ["rsciio/tia/_api.py"], [("ser_reader / emi_reader", "rsciio/tia/_api.py")], ["rsciio.tia.file_reader"])
P("C23", "Merlin mib files give every selected frame at its scan position",
  "Reading a Quantum Detectors mib file (single or quad, 8, 16 or 32 bits), eagerly or lazily, with or without its hdr file, returns the frames selected by first_frame and last_frame (python indexing) with their values, rows flipped, in the shape given by navigation_shape as (x, y), else by the hdr file, else by the pauses between the lines; of interrupted scans the completed lines are kept, and a shape the frames can't fill becomes a stack of frames. load_mib_data gives the same frames unflipped from a file or a memory buffer together with their headers, from which parse_timestamps and parse_exposures return the time and exposure of every frame. Date, time and dwell time are those of the first frame, and the hdr file is found beside the mib file.",
  "for all detector sizes, depths, numbers of frames and lines, interruptions, selections, shapes, paths and buffers", "the tests read fixed files with few shapes and ranges",
  ["rsciio/quantumdetector/_api.py"], [("load_mib_data / file_reader / parse_timestamps", "rsciio/quantumdetector/_api.py")], ["rsciio.quantumdetector.file_reader", "rsciio.quantumdetector.load_mib_data", "rsciio.quantumdetector.parse_timestamps", "rsciio.quantumdetector.parse_exposures"])
P("C24", "mrc files give their images, calibration and DE scan as encoded",
  "Reading an mrc file with the byte order given by endianness, eagerly or lazily, returns the images of modes 0, 1, 2, 4, 6 and 12 in navigation_shape (x, y, ...), without singleton dimensions, with the scale (length / M) and origin of the header in nm, or the pixel size of the FEI extended header, and the header fields as original metadata. With the info file of a Direct Electron movie (given, or found beside a movie file) the frames have the shape of the scan or its region of interest, the n-th frame is at the n-th position of the scan coordinates file (visits of one position along a repeats axis), and axes, calibrations and metadata are those of the info file. Virtual and external images given by the user, or else found beside the movie, are returned as navigators with their own name and data.",
  "for all modes, byte orders, shapes, header calibrations, extended headers, scans, positions and related images", "the tests read fixed little endian files with one calibration",
  ["rsciio/mrc/_api.py"], [("file_reader / read_de_metadata_file / find_related_de_files", "rsciio/mrc/_api.py")], ["rsciio.mrc.file_reader"])
P("C25", "EMPAD and Arina 4D-STEM data are read frame by frame in scan order",
  "Reading an EMPAD xml file, eagerly or lazily, gives the 128 x 128 frames (without the two footer lines) of the raw file it names in scan order, NaN replaced by zeros if asked for, with the scan axes from the field of view and the diffraction axes from q_calibration or else the stored pixel size. Reading an Arina master file gives the frames of all data files in order in the given navigation_shape (also as a number or with \"auto\"), converted to dtype, multiplied by the correction of the flatfield and averaged over blocks of rebin_diffraction pixels, calibrated by the pixel size of the metadata file beside it.",
  "for all scan shapes, data types, calibrations, splits in data files and options", "the tests read three EMPAD files of ramps and one square Arina file",
  ["rsciio/empad/_api.py", "rsciio/arina/_api.py"], [("file_reader (empad)", "rsciio/empad/_api.py"), ("file_reader (arina)", "rsciio/arina/_api.py")], ["rsciio.empad.file_reader", "rsciio.arina.file_reader"])
P("C26", "Hamamatsu img files give the streak image on its calibrated axes",
  "An img file of 8, 16 or 32 bits gives exactly the counts recorded, with the wavelength axis ascending (the image being mirrored along with it), and the time and wavelength axes holding the calibration tables of the file, their least squares line with use_uniform_signal_axes, or pixels where uncalibrated. The header and every entry of every section of the comment appear in original_metadata, whatever characters quoted values hold, and date, exposure, detector and spectrometer settings in metadata.",
  "for all image sizes, bit depths, calibration tables and comments", "the tests read a few recorded files of two modes",
  ["rsciio/hamamatsu/_api.py"], [("IMGReader", "rsciio/hamamatsu/_api.py")], ["rsciio.hamamatsu.file_reader"])
P("C28", "JobinYvon xml files give their spectra, scans and maps",
  "An xml file of a spectrum, line scan or map gives exactly the counts recorded for every channel at every position, with the signal axis ascending (the spectra being mirrored along with it), holding the channel values of the file or, with use_uniform_signal_axis, their least squares line, named after its units. Navigation axes carry the positions recorded, axes of one position being left out, and every entry of the setup, file information and date appears in original_metadata, and where known, converted, in metadata, whichever of them the file has.",
  "for all counts, map sizes, axes, units and sets of parameters", "the tests read nine recorded files",
  ["rsciio/jobinyvon/_api.py"], [("JobinYvonXMLReader", "rsciio/jobinyvon/_api.py")], ["rsciio.jobinyvon.file_reader"])
P("C29", "Renishaw wdf files give their spectra, axes, metadata and image",
  "Every wdf file gives its spectra in the shape of the measurement (single, averaged, series, map, line scan or the finished lines of an interrupted map), in increasing order of the signal axis, with the navigation axes (size, scale, offset, units) its WMAP and ORGN blocks describe and the signal axis stored, as a uniform axis if asked for. The header, the trees of metadata of every block, text and unmatched values (if asked for) appear in original_metadata, and the metadata mapped from them agrees. The white light image comes with its calibration and the marker of the map.",
  "for all measurement types, sizes, blocks and their order, metadata trees and types, directions of the axes and options", "the tests read 14 recorded files",
  ["rsciio/renishaw/_api.py", "rsciio/utils/_image.py"], [("WDFReader", "rsciio/renishaw/_api.py")], ["rsciio.renishaw.file_reader"])
P("C30", "TriVista tvf files give their spectra, scans, series and windows",
  "A tvf file of a spectrum, line scan, map, time series or glued spectrum gives exactly the counts and channel wavelengths recorded (or their least squares line with use_uniform_signal_axis), navigation axes as set up and the time axis as stamped, and the single windows of a glued spectrum with glued_data_as_stack. Whatever number of spectrometers, gratings, detectors, lasers, microscopes and objectives the setup has, metadata describes those in use, and original_metadata only those or, with filter_original_metadata=False, all of them.",
  "for all counts, axes, kinds of measurement and hardware setups", "the tests read nine recorded files of one laboratory",
  ["rsciio/trivista/_api.py", "rsciio/utils/xml.py"], [("TrivistaTVFReader", "rsciio/trivista/_api.py")], ["rsciio.trivista.file_reader"])
P("C32", "EDAX spectra, maps and line scans are read with their sidecar files",
  "A spc file gives its counts, an spd map and an lsd line scan (the spectra recorded) the counts of every pixel and channel, of either byte order, lazily (in the chunks asked for) or eagerly. The energy calibration, elements and detector metadata are those of the spc file, the map calibration that of the ipr file and the line calibration that of the csv file, found beside the data by their usual names or given explicitly, and the headers appear in original_metadata, complete with load_all_spc.",
  "for all counts, sizes, file versions, byte orders, calibrations, sidecar files and options", "the tests of this reader need recorded files which are not available",
  ["rsciio/edax/_api.py"], [("spc_reader / si_reader", "rsciio/edax/_api.py")], ["rsciio.edax.file_reader"])
P("C33", "Logs of in-situ holders give every sample of every quantity",
  "The csv logs of Protochips and Impulse holders give one signal per logged quantity, a DENS DigiHeater log its measured temperature, holding exactly the values of all samples in the log, with the quantity and its units in the metadata and all parameters and notes of the log and its metadata file in full in original_metadata. The time axis is in seconds with a step within the steps recorded (Protochips and Impulse) or fitted to the times recorded, over midnight as well (DENS). Files without the optional user, calibration, notes or metadata file are read too, and files which aren't DENS logs, empty ones included, are refused.",
  "for all quantities, sample values, times, notes and header parameters", "the tests read one recorded log of each kind",
  ["rsciio/protochips/_api.py", "rsciio/dens/_api.py", "rsciio/impulse/_api.py"], [("ProtochipsCSV", "rsciio/protochips/_api.py"), ("file_reader", "rsciio/dens/_api.py"), ("ImpulseCSV", "rsciio/impulse/_api.py")], ["rsciio.protochips.file_reader", "rsciio.dens.file_reader", "rsciio.impulse.file_reader"])
P("C34", "Quadstar SAC and SBC files give every scan of every trace",
  "A SAC file gives one signal per scan analog trace with exactly the values recorded in every cycle, those beyond the full scale range of their cycle being NaN, and an SBC file one signal with the intensity of every mass in every cycle; a single cycle gives a spectrum without time axis. The mass axis starts at the first mass with the recorded steps, the time axis has the mean step of the cycles or, with use_uniform_signal_axis=False, their times since the first one. Names and units, comment, date and all fields of the headers are those of the file, and a SAC file without scan analog traces is refused.",
  "for all numbers of traces and cycles, values, full scale ranges, masses, times and layouts of the file", "the tests read a few recorded SBC files and no SAC file",
  ["rsciio/quadstar/_api.py"], [("file_reader", "rsciio/quadstar/_api.py")], ["rsciio.quadstar.file_reader"])
P("C35", "Topspin app5 files give their images and diffraction scans",
  "An app5 file of one or several sessions gives exactly the values of every image and of every pattern of every scan (a navigation axis of a single position being left out), or those of the session or dataset whose dataset_path is given, and only lists their shapes and paths with dryrun. The axes carry the positions scanned (steps to a picometre), x and y calibrations of images and patterns apply to their x and y axes, and settings of the session appear with their values, nested ones as nested dictionaries, in original_metadata, date, title, notes and sample in metadata.",
  "for all numbers of sessions and datasets, sizes, dtypes, positions, calibrations and settings", "the tests read three recorded files whose x and y calibrations of patterns agree",
  ["rsciio/topspin/_api.py"], [("file_reader", "rsciio/topspin/_api.py")], ["rsciio.topspin.file_reader"])
P("C41", "Reading doesn't depend on how, where and when a file is read",
  "Reading a file of any supported format gives the same signals (data and its dtype, axes and metadata) whether it is given as str or pathlib.Path, absolutely or relatively to the current directory, from a folder of any name, eagerly or lazily where the format can be read lazily, the first time or again, and whatever was read before. Reading leaves the files and their folder as they are and, unless lazy, no file open. Signals already read aren't changed by later readings.",
  "for all readable files of the supported formats, ways to name them and sequences of readings", "the tests read every file once or twice, in one place and mostly as one type of path",
  ["rsciio/*/_api.py", "rsciio/utils"], [("file_reader of every plugin", "rsciio/bruker/_api.py"), ("readers", "rsciio/utils/_path.py")], ["rsciio.*.file_reader"])
P("C42", "Writing leaves the signal unchanged and gives a complete, closed file",
  "Writing a signal to any writable format leaves its data, axes, metadata and all other entries as they were, whether the file is written or refused. The file holds the same whether the data is lazy or in memory, contiguous or not, read-only or of another byte order, the path is a str or pathlib.Path, absolute or relative, and whether the file replaces another signal's file or is new. When the writer returns, the file is complete and closed, files of other names in its folder are as before, and later changes to the signal don't reach it.",
  "for all writable formats except USID, signals of their dtypes and dimensions with metadata, memory layouts, chunks, paths and previous files", "tests write fresh files from C ordered arrays and don't look at the signal, the folder or open files afterwards",
  ["rsciio/hspy/_api.py", "rsciio/tiff/_api.py", "rsciio/nexus/_api.py", "rsciio/emd/_emd_ncem.py", "rsciio/blockfile/_api.py", "rsciio/ripple/_api.py", "rsciio/mrcz/_api.py", "rsciio/pantarhei/_api.py", "rsciio/tvips/_api.py"],
  [("file_writer of each format", "rsciio/hspy/_api.py"), ("get_axes_from_signal / metadata conversion of the writers", "rsciio/tiff/_api.py")],
  ["rsciio.<format>.file_writer", "rsciio.<format>.file_reader"], over=("inputs", "histories"))
P("C43", "Distributed memory mapping reads the bytes numpy.memmap would read",
  "memmap_distributed returns, for any file, offset, dtype (structured fields included), shape and chunking, a dask array holding what numpy.memmap of the same file holds, whether it is computed whole, in slices or block by block; given a list of scan positions it puts the n-th frame of the file at the n-th position, and positions not listed are zero. The chunking requested is the chunking of the result.",
  "for all offsets, dtypes, structured keys, shapes, chunkings, position lists and file lengths", "tests use a few shapes and whole-array computation only",
  ["rsciio/utils/_distributed.py", "rsciio/utils/distributed.py"], [("memmap_distributed / slice_memmap / get_chunk_slice", "rsciio/utils/_distributed.py")], ["rsciio.utils.file.memmap_distributed"])

P("C44", "RGB arrays and arrays with colour channels convert into each other",
  "regular_array2rgbx and rgbx2regular_array are inverse of each other for 8 and 16 bit RGB and RGBA data of any shape, memory layout and byte order, in memory or as dask arrays, with every channel keeping its values and the input left as it is. With plot_friendly 16 bit values are scaled to 0-1 and 8 bit values kept. is_rgb, is_rgba and is_rgbx tell which structured arrays are, and arrays of other dtype or number of channels are refused.",
  "for all shapes, channels, bit depths, memory layouts, byte orders and chunks", "the tests convert a few contiguous arrays",
  ["rsciio/utils/rgb.py"], [("regular_array2rgbx / rgbx2regular_array", "rsciio/utils/rgb.py")], ["rsciio.utils.rgb"])
P("C46", "XML trees become dictionaries with every text, attribute and element",
  "XmlToDict gives every element, attribute and text of an XML tree under its name, elements of the same name as list in their order, interpreted as python literals where possible, flattened elements giving their entries to the one above, and texts between children as interchild_text_parsing asks for; the tree is left as it is. convert_xml_to_dict gives the same of trees without repeated names, indented or not. sanitize_msxml_float replaces the decimal comma of every number between tags, and nothing else.",
  "for all XML trees and options, numbers with and without exponent", "the tests convert one XML file",
  ["rsciio/utils/xml.py"], [("XmlToDict.dictionarize / eval", "rsciio/utils/xml.py"), ("xml2dtb / sanitize_msxml_float", "rsciio/utils/xml.py")], ["rsciio.utils.xml"])
P("C48", "Path and file utilities name, create and find the right files",
  "incremental_filename gives the name itself if there is no such file, and otherwise the first name with a number appended, from the one given, that doesn't exist; append2pathname keeps folder and extension, ensure_directory creates missing folders only, and overwrite is True only if there is no such file (or zspy folder) or after the answer yes. get_file_handle gives the open handle of the file which lazy HDF5 or TIFF data, also after further operations on HDF5 data, are read from. inspect_npy_bytes gives the offset, shape and dtype of the array at the position of the stream, and leaves the stream at its data.",
  "for all names, folders, files present, answers, formats, operations and npy headers", "the tests use a few names and files",
  ["rsciio/utils/path.py", "rsciio/utils/_tools.py"], [("incremental_filename / overwrite", "rsciio/utils/path.py"), ("get_file_handle / inspect_npy_bytes", "rsciio/utils/_tools.py")], ["rsciio.utils.path", "rsciio.utils.file"], over=("inputs", "histories"))
P("C49", "Damaged files are refused or read, but never crash or hang a reader",
  "Reading a file that is cut off anywhere, or whose bytes are changed, removed, inserted or zeroed, either raises an ordinary exception or returns, in time comparable to that of the intact file and without ending the process. What is returned of a file cut off is well-formed: as many axes as dimensions, of the sizes of the data. The file is left as it is and not open any more, and intact files read afterwards give the same as before.",
  "for all formats and positions of the cut; changed bytes for the formats not parsed by the HDF5 library or image decoders, read eagerly", "the tests read a handful of files known to be broken",
  ["rsciio/*/_api.py", "rsciio/bruker/unbcf_fast.pyx", "rsciio/phenom/_api.py"], [("bin_to_numpy / DataStream", "rsciio/bruker/unbcf_fast.pyx"), ("ElidReader._read", "rsciio/phenom/_api.py"), ("file_reader of every plugin", "rsciio/renishaw/_api.py")], ["rsciio.*.file_reader"])
P("C50", "TIFF files of microscopes have their makers' calibration and description",
  "Every image of a TIFF file with the private tags of FEI, Zeiss, TVIPS, Olympus, JEOL, Hamamatsu streak cameras or Gatan DigitalMicrograph has exactly the values stored and, for its width and its height, the pixel size these tags give in its unit, or none where they give none. Its metadata has the instrument's settings (beam, stage, detector, operator, date and so on) converted to the units of the metadata, each page of a file read with multipage_as_list its own. With force_read_resolution the resolution tags are used instead, and hamamatsu_streak_axis_type gives the time axis as stored, as a line or as a polynomial.",
  "for all values of the tags, entries missing or without value, image sizes, dtypes, byte orders, numbers of pages and options", "the tests read a few recorded files, of square pixels",
  ["rsciio/tiff/_api.py"], [("_parse_scale_unit / _axes_*", "rsciio/tiff/_api.py"), ("get_metadata_mapping", "rsciio/tiff/_api.py")], ["rsciio.tiff.file_reader"])
P("C31", "Phenom ELID projects give every image and the spectra of every analysis",
  "An ELID project of any of the versions 0 to 4 gives, in the order of the file, every image with its pixels, pixel size and description, followed by its analyses, each titled after its image, kind and number: the counts recorded of MSA, spot, region and difference spectra, line scans and maps, with their energy calibration in keV. Settings of the detector and the analysis (elements, oxides, positions, times of every point) appear under EDS in original_metadata, those of the image beside them and only those of the analysis itself, and metadata has them converted (degrees, keV, mm).",
  "for all versions, numbers and kinds of analyses, counts up to 32 bit, settings, images in grey and colour with and without description", "the tests read five versions of one recorded project",
  ["rsciio/phenom/_api.py"], [("ElidReader", "rsciio/phenom/_api.py")], ["rsciio.phenom.file_reader"])
P("C36", "Tofwerk files give the spectra, peaks, events and images they hold",
  "Reading a TofDAQ FIB-SIMS h5 file gives, for each signal requested, the sum spectrum, peak data (columns in ascending order of mass), event lists and FIB images stored in it, with axes, pixel sizes, titles and metadata from its attributes; the peak data of a raw file are the numbers of events of each pixel within each integration window divided by waveforms times recording channels, with or without numba. The options mz_range, depth_range, dtype, chunks, lazy and peak_data_batch_size only select, cast or defer what is read without them, and invalid ranges, unknown or unavailable signals and other h5 files are refused with the documented errors. available_signals lists exactly the signals which signal='all' returns.",
  "for all raster sizes, mass axes (with invalid beginnings), tables of peaks (interleaved, unsorted, overlapping), events, images and combinations of options", "the tests read two synthetic files with regular peaks and a square raster",
  ["rsciio/tofwerk/_api.py", "rsciio/tofwerk/_reconstruction.py"], [("compute_peak_data_from_eventlist", "rsciio/tofwerk/_reconstruction.py"), ("available_signals", "rsciio/tofwerk/_api.py")], ["rsciio.tofwerk.file_reader", "rsciio.tofwerk.available_signals", "rsciio.tofwerk.compute_peak_data_from_eventlist"])

P("C37", "Delmic files give the acquisitions they hold, of the types asked for",
  "Reading an Odemis HDF5 file gives one signal for each acquisition of the types that signal= selects (cl, se, survey, anchor or all), in the documented order of types, its type told by its dimensions, description and pole position; angle-resolved images are merged by date over the scan of the concurrent SEM image for each polarization, and given as they are when that isn't possible. Data, axes (empty dimensions removed, in the order Z, Y, X, Time, Angle, Wavelength; Y decreasing; the offset that of the first pixel), title, date, polarization and original metadata (without invalid values) are those of the file. Other names, lazy=True and files without such data are refused with the documented errors.",
  "for all sets of acquisitions, sizes, scales, orders of dimensions, dates and metadata, complete or not", "the tests read twelve complete files, and compare a few values",
  ["rsciio/delmic/_api.py"], [("file_reader", "rsciio/delmic/_api.py"), ("merge_ar_data", "rsciio/delmic/_api.py")], ["rsciio.delmic.file_reader"])

P("C47", "Dates keep their instant in every representation",
  "Converting between serial dates (days since 1899-12-30, as in blockfiles), datetime objects and ISO strings keeps the instant, to the microseconds a serial date can hold, before and after the origin and for naive (UTC) and aware dates. Serial dates read are given in the local time zone of the computer with its name; ISO dates are understood in the time zone given (a name, an offset, none meaning UTC). get_date_time_from_metadata gives the date, time or both that metadata holds, with its time zone, in each of its formats, and Microsoft file times (units of 0.1 µs since 1601) are exact to the microsecond.",
  "for all instants, time zones, offsets, parts and formats", "the tests convert three dates, and read the dates of a few files",
  ["rsciio/utils/_date_time.py", "rsciio/blockfile/_api.py"], [("get_date_time_from_metadata", "rsciio/utils/_date_time.py"), ("serial_date_to_datetime", "rsciio/utils/_date_time.py")], ["rsciio.utils._date_time", "rsciio.blockfile.file_reader"])

P("C40", "Signals saved by HyperSpy in a format that can hold them load as they are",
  "hyperspy.save of a signal, also of one that is lazy, non-contiguous or the result of slicing and transposing, in any of the writable formats that can hold its dimensions and dtype, followed by hyperspy.load, lazily or not, gives the data, and of every axis what the format keeps of name, size, scale, offset and units, in the same order of axes. Saving again with overwrite gives the same. hspy and zspy also keep metadata, original metadata, non-uniform and functional axes, and the class.",
  "for all formats, dimensions, dtypes, calibrations, metadata and sequences of operations before saving", "the tests call the readers and writers mostly with contiguous arrays in memory, for one format at a time",
  ["rsciio/*/_api.py"], [("file_writer / file_reader of every writable plugin", "rsciio/hspy/_api.py"), ("overwrite_dataset", "rsciio/_hierarchical.py")], ["rsciio.*.file_writer", "rsciio.*.file_reader"])

P("C51", "EMD files of Prismatic and py4DSTEM give their outputs with depths and axes",
  "Each output of a Prismatic simulation (datacube, annular, virtual and DPC detectors, potential) is one signal whose depths are stacked, the depth calibrated by slice thickness, number of slices and start where it is uniform, and not otherwise; with stack_group=False or dataset_path each depth is a signal. Data are those stored with the axes of the stored dimensions (offset, scale, name, units as ångström or inverse nanometre), also where dimensions have size one, those of scan, depth and detector being navigation. Every array of a py4DSTEM (EMD 1.0) tree is given as stored with its own axes, lazily or not.",
  "for all sets of outputs, sizes, calibrations, numbers of depths, simulation parameters and trees", "the tests read six simulations, and one datacube",
  ["rsciio/emd/_emd_ncem.py"], [("EMD_NCEM.read_file / _read_data_from_groups", "rsciio/emd/_emd_ncem.py")], ["rsciio.emd.file_reader"])

P("C52", "HSPY files of former format versions are read with their metadata of today",
  "An HSPY file of any version of the format from 1.0 (without version attribute, text as bytes) to the present gives every experiment that has data, lazily or not, with its data, axes (stored as axis-N groups or as a list), original metadata (with lists, tuples, None, binary strings and arrays), package, learning results (also under their former names mva_results and peak_mva_results), models and signals within its metadata. The metadata are those stored, where they are kept today: General, Signal, Sample.xray_lines, _HyperSpy, Noise_properties and Acquisition_instrument with Detector.EELS, Detector.EDS, Detector.Camera.exposure and Stage.tilt_alpha, dates as ISO strings, and no title for __unnamed__. A file of a newer version is read with a warning, given for no other.",
  "for all versions, ways to store the version, metadata, containers, axes, dtypes, layouts of datasets, ragged arrays and numbers of experiments and models", "the tests read one file each of five versions",
  ["rsciio/_hierarchical.py", "rsciio/hspy/_api.py"], [("HierarchicalReader.group2signaldict", "rsciio/_hierarchical.py"), ("HierarchicalReader._group2dict", "rsciio/_hierarchical.py")], ["rsciio.hspy.file_reader"])
