NA = {}
T.update({
    'C08': ('property-based testing against a pixel-by-pixel model', 'Images up to 20x16x4, regions with any overlap, all formats and types; conversion of the block is taken from ilConvertImage (C07).'),
    'C09': ('stateful property-based testing against a map model', 'Sequences of up to 40 operations over names up to 5000; memory accounting at shutdown.'),
    'C10': ('stateful property-based testing against a tree model', 'Sequences of up to 30 operations on two names; trees built by ilCreateSubImage and by loading generated cube maps.'),
    'C11': ('stateful property-based testing against a copy model', 'Copy, clone and copy-in calls on images and chain elements up to 20x20x3 of all formats, followed by edits of either copy.'),
    'C12': ('stateful property-based testing against a state-stack model', 'Sequences of up to 60 setter, getter, push and pop calls over all states; hints and key colours have no getter and are judged by other properties.'),
    'C14': ('property-based testing against a pixel-by-pixel model', 'Images up to 20x20x3 of all formats, types and origins, offsets beyond both sides; blends to within two steps.'),
    'C25': ('differential property-based testing against independent encoders', 'Files of 17 formats written by encoders of this check (or libpng, libjpeg, libtiff), all pictures up to 300 pixels wide; colours compared to the last step (lossy and float formats within a bound).'),
    'C03': ('fuzzing with stored coverage-guided corpora, structured mutation and generated files under sanitizers, invariants on the result', 'All 46 loaders through memory and file I/O; about 4400 stored seeds from libFuzzer runs plus mutations; memory requests above 256 MB are refused, bounded time per load.'),
    'C19': ('property-based testing against a colour-statistics oracle, metamorphic repetition', 'Pictures up to 70x70x3 (thorough 160), all formats, integer and float types, limits 2..256, both quantisers.'),
    'C04': ('metamorphic property-based testing: the same bytes or image through every way of I/O in random order', 'Well formed, mutated and stored seed files of all loaders; handles at offsets up to 3000; callbacks over memory with call accounting; all 14 savers; fresh memory filled differently per way.'),
    'C05': ('property-based testing: every buffer size against the complete file, guarded buffers, outputs that refuse data', 'All 14 savers with their options, images up to 40x40, 2 to 8 buffer sizes from 0 to beyond the end each, through memory and through write callbacks that stop taking data.'),
    'C06': ('differential and metamorphic property-based testing: three ways of asking, known types, broken signatures, documented extension table', 'Files of 17 encoders and 13 savers, stored and mutated contents of all loaders; handles at offsets up to 600; 65 documented extensions with changed, cut and extended variants.'),
    'C24': ('stateful property-based testing against a model directory', 'Sequences of up to 9 saves into a directory with files already there, 28 documented extensions in any letter case and 19 wrong ones, overwrite permission switched, pushed and popped.'),
    'C15': ('stateful property-based testing against a pixel model', 'sequences of geometry operations on generated images, frames and regions; every pixel compared after each step'),
    'C29': ('property-based testing against a pixel model', 'one operation per case on generated images of every format and type; every pixel compared'),
    'C23': ('differential property-based testing: load with modes against load and convert', 'generated, saved, fuzz-found and mutated files of 40 types, all combinations of modes, three ways to load; every picture of the chain compared'),
    'C17': ('property-based testing: random images, sizes and filters against an independent reference resampler (nearest, interpolation, kernels) and mipmap chain invariants', 'all formats and types with every filter; interpolated values compared within one step, kernels within two'),
    'C16': ('property-based testing: random images, parameters, kernels and regions against an independent pixel model of every filter, and a metamorphic relation (filter of the converted image) for types the filters convert', "all 20 filter entry points in all formats and types; exact for integer filters, within rounding for colour maps; the pixels within 1.6 of a region's border are left open"),
    'C28': ('stateful random testing: generated call sequences (loads of damaged files, saves, conversions, filters, sub images, DXT, settings, deletes) with an allocation ledger as the oracle', 'exact block accounting through ilSetMemory; AddressSanitizer for double frees'),
    'C27': ('metamorphic stateful testing: the same generated call sequence run twice, with different memory contents and different earlier operations, logs compared', "every call's result, errors, output bytes and the selected image after each step are compared"),
    'C22': ('fault injection driven by stateful random testing: generated call sequences (loads, saves, conversions, filters, sub images, palettes, DXT) rerun with each of a spread of their memory requests refused once, against the fault-free run', 'every call after which a request was refused must report an error or give the fault-free result; image invariants, ASan and an allocation ledger after each'),
    'C13': ('model-based stateful testing: random sequences of failing and working calls against a list of the 32 most recent errors; 64 kinds of generated invalid calls with a snapshot of images, selection and settings; generated scenarios for failure and error consistency', 'queue order exactly; refusals over randomly generated invalid enumerants and values'),
    'C30': ('property-based testing: random pictures, copies that differ in one generated respect (or none), chains with a selected sub image; all queries against the model of what was put there', 'exact; snapshots of every picture of both images around the queries'),
    'C20': ('property-based testing against a reference S3TC decoder written from the definition (decode differential, encoder optimality and exactness relations per block, flip and inversion metamorphic relations)', 'all formats and sizes up to 33 are sampled, not enumerated'),
    'C18': ('property-based testing: palette model, round trips, palette files from an independent generator with damage, under AddressSanitizer', 'palettes and files sampled'),
    'C21': ('stateful property-based testing: random histories of registering, removing, loading and saving with handlers against a model of the two handler lists', 'model-based, extensions drawn from a small set with case variants so that clashes, first, middle and last removals all occur'),
    'C02': ("property-based testing: save and load of random pictures against libjpeg's own loss per block, the RGBE bound, and the per-block DXT relations and reference decoder", 'every generated picture is compared pixel by pixel; the JPEG reference is libjpeg at the same quality, so gross and local losses show, not single least significant bits'),
    'C26': ('property-based testing: random pictures and save options, the files read by libpng, libtiff and decoders written from the format descriptions', 'every header field and pixel of each generated file is compared; formats whose coding loses (JPEG, DDS) are in C02'),
})
