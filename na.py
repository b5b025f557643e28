"""Properties that symbolic execution of the code can't decide here, and why."""

NOT_APPLICABLE = [
    dict(
        id="P40", title="A raw file decodes to the same pixels and metadata, or fails cleanly",
        statement="For any content of a file, opening it, and asking for its metadata, thumbnails and raw data, "
                  "returns values or errors in bounded time and memory, and never panics.",
        over=["inputs"], text="Every content of a whole file.",
        why="Files are arbitrary and hostile, the tests have a few.",
        files=["src/rawfile.rs"], mechanism=[("RawFileImpl, rawfile_from_file", "src/rawfile.rs")],
        reason="The whole path dereferences tables in lazy_static HashMaps of a thousand entries (tag names, camera "
               "models), allocates by sizes that the file declares and dispatches through trait objects: Kani's symbolic "
               "execution of a single IFD through it does not end. The properties decide its parts with hooks."),
    dict(
        id="P41", title="Parallel decoding gives the same image as serial decoding",
        statement="Data decoded by several threads (LJPEG tiles, Olympus rows, rendering) doesn't depend on their schedule.",
        over=["schedules"], text="Every interleaving of the worker threads.",
        why="Tests see the schedules that happen.",
        files=["src/decompress/tiled.rs"], mechanism=[("par_iter().map()", "src/decompress/tiled.rs")],
        reason="The threads are rayon's: Kani has no threads, and the code only uses par_iter() over disjoint data, which "
               "the borrow checker makes free of races. There is no interleaving in the repository's own code to encode."),
    dict(
        id="P42", title="Colour rendering follows the camera's colour matrix",
        statement="Rendered colours are those of the camera's matrix and white balance applied to the demosaiced values.",
        over=["inputs"], text="Every sample, matrix and white balance.",
        why="Tests compare a few images.",
        files=["src/render.rs"], mechanism=[("render", "src/render.rs")],
        reason="Floating point 3x3 inversions and products in nalgebra, and power functions: the bit level encoding of one "
               "symbolic double multiplication and division chain already exceeds the time of a check."),
    dict(
        id="P43", title="Cameras are identified by their maker and model",
        statement="Each known maker and model gives its type id and its calibration, an unknown one gives none.",
        over=["configurations"], text="Every string of maker and model.",
        why="Tests have a few cameras.",
        files=["src/tiff.rs", "src/camera_ids.rs"], mechanism=[("identify_with_exif, type id maps", "src/tiff.rs")],
        reason="The identification is a HashMap of strings built at run time with SipHash: symbolic strings through it, or "
               "even its construction with hundreds of entries, are out of reach of the bit level encoding."),
]
