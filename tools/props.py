#!/usr/bin/env python3
"""Writes properties.jsonl (the one source of the property texts)."""
import json, os
I, H, C, F = 'inputs', 'histories', 'configurations', 'fault_sequences'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


IL = 'DevIL/src-IL/src/'
ILU = 'DevIL/src-ILU/src/'

prop('C01', 'Saving in a lossless format and loading back gives the same picture',
     'An image that a lossless format can hold (BMP, PNG, TGA, SGI, PCX, PNM, TIFF, PSD, RAW, uncompressed VTF, WBMP; 8 bit, and 16 bit where the format has it), saved by ilSave, ilSaveF or ilSaveL, loads back with the same width, height and colour at every position, whatever its size, channel order, origin, palette and content, and with or without run length compression or interlacing. '
     'Alpha survives in the formats that store it. Saving leaves the image in memory as it was.',
     [I, C], 'every width, height, pixel content, format, origin, palette type and size, and compression setting a lossless format accepts',
     'The tests save and load one fixed picture per format and compare one configuration; odd widths, one pixel images, run boundaries, short palettes, upper left origins and memory output are never tried.',
     [IL + 'il_bmp.cpp', IL + 'il_png.cpp', IL + 'il_targa.cpp', IL + 'il_sgi.cpp', IL + 'il_pcx.cpp', IL + 'il_pnm.cpp', IL + 'il_tiff.cpp', IL + 'il_psd.cpp', IL + 'il_raw.cpp', IL + 'il_vtf.cpp', IL + 'il_wbmp.cpp', IL + 'il_rle.cpp'],
     [('row padding, run length packets, origin flip and channel swaps of each saver and loader', IL + 'il_<format>.cpp')],
     observe=['ilSaveL', 'ilSave', 'ilLoadL', 'ilLoad', 'ilGetData'])

prop('C02', 'Lossy formats stay within their error bound',
     'JPEG, Radiance HDR and DXT compressed DDS files written by ilSave or ilSaveL load back with the same dimensions and the right way up, and the colours stay within the error of the coding: for HDR 1/127 of the largest channel of the pixel at any magnitude from 1e-32 to 2^127 (negative channels become 0); for JPEG what libjpeg itself loses at IL_JPG_QUALITY, in every 16x16 block, IL_JPG_PROGRESSIVE deciding the kind of file; for DDS, in every format IL_DXTC_FORMAT can name, every pixel the nearest colour, alpha or channel value its block has, with blocks of two values exact. DDS files hold all mipmaps and slices and, when the six images of a chain carry the six cube flags, the faces in their order; loading gives the same levels and faces with the pictures the blocks mean, and keeps the block data and its format under IL_KEEP_DXTC_DATA. Saving leaves the image in memory as it was.',
     [I, C], 'every image size, content, format, type and origin, every DXT format and JPEG quality',
     'The tests save one picture and never compare the pixels of small, non multiple of four, upper left or extreme images.',
     [IL + 'il_jpeg.cpp', IL + 'il_hdr.cpp', IL + 'il_dds.cpp', IL + 'il_dds-save.cpp'],
     [('RGBE conversion', IL + 'il_hdr.cpp float2rgbe'), ('DXT block coding', IL + 'il_dds-save.cpp Compress'), ('libjpeg calls', IL + 'il_jpeg.cpp')],
     observe=['ilSaveL', 'ilLoadL', 'ilGetData'])

prop('C03', 'Loading arbitrary bytes is memory safe and leaves a usable library',
     'For every byte string and every image type, ilLoadL, ilLoad, ilLoadImage and the type tests end within bounded time and read and write only memory the library owns, whether the load succeeds or fails. '
     'When a load reports success the bound image is consistent: positive dimensions, a valid format and type, and pixel and palette storage of exactly the size these imply. '
     'After a failed load the image name can be deleted, bound, and used for another load, which then behaves as usual.',
     [I, F], 'all byte strings offered to each of the loaders, in particular truncated, mutated and field-edited valid files',
     'The tests load a handful of well formed files; no malformed input is ever offered to a loader.',
     [IL + 'il_*.cpp (all loaders)'],
     [('header checks and bounds of each loader', IL + 'il_<format>.cpp'), ('iread and friends reporting short reads', IL + 'il_files.cpp')],
     observe=['ilLoadL', 'ilIsValidL', 'ilDetermineTypeL', 'ilGetInteger', 'ilGetData'])

prop('C04', 'File name, file handle, memory and callback I/O agree',
     'Loading the same bytes through a file name, a file handle (ilLoadF, from the current position), a memory block (ilLoadL) and user supplied read callbacks (ilSetRead) gives the same result and the same image; ilLoadF leaves the handle where it was. Saving the same image to a file name, a file handle, memory and user supplied write callbacks (ilSetWrite) gives the same bytes; ilSaveF returns their number and leaves the handle behind the last of them. After ilResetRead or ilResetWrite the default I/O is in force again.',
     [I, H, C], 'every loadable or savable content, every starting offset of the handle, and every order of I/O methods',
     'The tests only use file names.',
     [IL + 'il_files.cpp', IL + 'il_io.cpp'],
     [('function pointer set chosen by iSetInputFile/iSetInputLump/iSetOutputFile/iSetOutputLump', IL + 'il_files.cpp'), ('dispatch tables', IL + 'il_io.cpp')],
     state=[('ReadProcs, ReadProcsCache', 'the read callbacks in force', IL + 'il_files.cpp')],
     observe=['ilLoad', 'ilLoadF', 'ilLoadL', 'ilSave', 'ilSaveF', 'ilSaveL', 'ilSetRead', 'ilSetWrite'])

prop('C05', 'Saving into memory respects the buffer and reports the true size',
     'ilSaveL never writes outside the given buffer. When the buffer is large enough it writes the file, changes no byte after it and returns its number of bytes; when it is too small it reports failure with an error, never a success for a truncated file. '
     'ilSaveL with a null buffer and size 0 gives exactly that number of bytes and writes nothing. In the same way ilSave and ilSaveF report failure when the output stops taking data. '
     'None of this changes the image.',
     [I, C], 'every image, every type that can be saved to memory, every buffer size from 0 up to beyond the file size',
     'The tests never save to memory.',
     [IL + 'il_files.cpp', IL + 'il_size.cpp', IL + 'il_io.cpp'],
     [('bounded lump writes', IL + 'il_files.cpp iWriteLump/iPutcLump'), ('size counting', IL + 'il_size.cpp')],
     observe=['ilSaveL', 'ilSave', 'ilSaveF', 'ilSetWrite'])

prop('C06', 'Type detection is correct and leaves the stream where it was',
     'A file saved or generated as a type that has a signature is recognised as that type by ilIsValid*, ilDetermineType* and ilLoad* with IL_TYPE_UNKNOWN, from a file name, a handle (at any position) and memory; with a wrong byte in the signature it is not. The three ways agree on any content (by name, ilIsValid also wants an extension of the type). '
     'Type tests leave a file handle at the position where it was and leave the bound image untouched. '
     'ilTypeFromExt maps every documented extension, in any letter case, to its type, and names without a known extension to IL_TYPE_UNKNOWN.',
     [I], 'every valid file content, extension spelling, path shape and handle position',
     'The tests never ask for a type.',
     [IL + 'il_io.cpp', IL + 'il_utility.cpp'],
     [('signature checks', IL + 'il_<format>.cpp iIsValid*/iCheck*'), ('extension table', IL + 'il_io.cpp ilTypeFromExt')],
     observe=['ilIsValid', 'ilIsValidF', 'ilIsValidL', 'ilDetermineType', 'ilDetermineTypeF', 'ilDetermineTypeL', 'ilTypeFromExt'])

prop('C07', 'ilConvertImage converts every format and type as defined',
     'ilConvertImage from any supported format to any other, between the unsigned integer and the floating point types, yields the same picture: dimensions and origin are kept, channels are matched by colour and not by position, missing alpha becomes opaque, colour becomes luminance by the documented weights, indices go through the palette, and integer types are rescaled over their whole range, to within one step of the destination. '
     'Images that follow in a chain are converted too, other images are not touched, and an invalid format or type (or ALPHA to luminance, which has no meaning) is refused with an error and changes nothing. '
     'Converting to the format and type the image already has changes nothing, and a conversion that loses nothing is undone by converting back.',
     [I, C], 'all pairs of formats and types, all pixel values, sizes and palettes',
     'The tests convert at most a few pictures by way of savers; the matrix of pairs is not visited.',
     [IL + 'il_convert.cpp', IL + 'il_convbuff.cpp'],
     [('channel conversion', IL + 'il_convbuff.cpp ilConvertBuffer'), ('type conversion', IL + 'il_convbuff.cpp iSwitchTypes'), ('palette lookup', IL + 'il_convert.cpp iConvertPalette')],
     observe=['ilConvertImage', 'ilGetData', 'ilGetPalette'])

prop('C08', 'ilCopyPixels and ilSetPixels move exactly the requested region',
     'ilCopyPixels returns the pixels of the requested region converted to the requested format and type, and ilSetPixels replaces exactly the part of the region that lies inside the image, for one, two and three dimensional regions, any offset, and either origin; rows are counted in the order of the image, or from the side IL_ORIGIN_MODE names while IL_ORIGIN_SET is enabled, and the image keeps its origin. '
     'No pixel outside the region changes, and no memory outside the caller buffer or the image is touched.',
     [I], 'every image, offset (also negative for setting), region size, format and type',
     'The tests never call these functions.',
     [IL + 'il_manip.cpp'],
     [('clipping', IL + 'il_manip.cpp ilCopyPixels/ilSetPixels'), ('conversion of the block', IL + 'il_convbuff.cpp')],
     observe=['ilCopyPixels', 'ilSetPixels', 'ilGetData'])

prop('C09', 'Image names behave like a map of independent images',
     'Over any sequence of generating, binding, deleting and reusing image names, a name is in use exactly from its generation (or first bind) to its deletion, names in use are never handed out again, and ilIsImage and IL_ACTIVE/CUR_IMAGE agree with that. '
     'Each name keeps the content last given to it, untouched by operations on other names; deleting the bound image leaves the default image (0) bound, and everything is released at shutdown.',
     [H], 'all sequences of ilGenImages, ilGenImage, ilBindImage, ilDeleteImages, ilDeleteImage, ilIsImage, ilTexImage',
     'The tests use at most two names in a fixed order.',
     [IL + 'il_stack.cpp'],
     [('image stack and free name list', IL + 'il_stack.cpp ilGenImages/ilDeleteImages/ilBindImage')],
     state=[('ImageStack, FreeNames, CurName', 'names to images', IL + 'il_stack.cpp')],
     observe=['ilIsImage', 'ilGetInteger(IL_CUR_IMAGE)', 'ilGetData'])

prop('C10', 'Sub-images, mipmaps, faces and layers keep their place',
     'Over any sequence of creating, selecting and editing sub-images (images, mipmaps, faces, layers), the counts IL_NUM_* and the selection IL_ACTIVE_* describe chains in which every element keeps the content last given to it; selections count from the current element, and one out of range fails and changes nothing. ilTexImage drops what hangs on the element, ilTexImageSurface keeps it. '
     'Binding a name selects its base image, and deleting the name frees the whole chain.',
     [H], 'all sequences of ilCreateSubImage, ilActiveImage, ilActiveMipmap, ilActiveFace, ilActiveLayer, ilTexImage, ilBindImage and ilDeleteImage',
     'The tests never build a chain.',
     [IL + 'il_stack.cpp', IL + 'il_internal.cpp'],
     [('chains Next, Mipmaps, Faces, Layers', IL + 'il_stack.cpp')],
     observe=['ilActiveImage', 'ilActiveMipmap', 'ilActiveFace', 'ilActiveLayer', 'ilGetInteger(IL_NUM_*)'])

prop('C11', 'Copies of an image are complete and independent',
     'ilCopyImage and ilCloneCurImage give an image with the same size, format, type, origin, palette, pixels, duration and offsets as the selected source element (what hangs on it is not copied); cloning leaves the bound image and its selection as they were, copying an image to itself changes nothing, and a source that does not exist is refused. '
     'Afterwards no operation on either one changes the other, and ilSetData, ilTexImage and ilRegisterPal copy the memory they are given, so later changes to that memory have no effect.',
     [I, H], 'all images, palettes and chains, and all later operations on either copy',
     'The tests never copy images.',
     [IL + 'il_devil.cpp', IL + 'il_register.cpp', IL + 'il_stack.cpp'],
     [('deep copy', IL + 'il_devil.cpp ilCopyImage, ilCopyImageAttr, ilCopyImage_')],
     observe=['ilCopyImage', 'ilCloneCurImage', 'ilGetData'])

prop('C12', 'States hold what was set, and push and pop restore them',
     'Every mode and value set with ilEnable, ilDisable, ilSetInteger, ilSetString, ilOriginFunc, ilFormatFunc, ilTypeFunc or ilCompressFunc is what the getters return until it is changed, invalid names or values raise an error and change nothing. '
     'ilPushAttrib and ilPopAttrib nest to the documented depth, with errors on overflow and underflow: a push keeps the groups its mask names and puts the other groups to their defaults, and a pop restores every state as it was before the push.',
     [H, C], 'all sequences of setters, getters, pushes and pops with valid and invalid arguments',
     'The tests set two or three states and never push.',
     [IL + 'il_states.cpp'],
     [('state stack', IL + 'il_states.cpp ilPushAttrib/ilPopAttrib'), ('setters and getters', IL + 'il_states.cpp')],
     state=[('ilStates[ilCurrentPos]', 'stack of states', IL + 'il_states.cpp')],
     observe=['ilGetInteger', 'ilIsEnabled', 'ilGetString', 'ilGetError'])

prop('C13', 'Errors are queued in order and failing calls say so',
     'ilGetError returns the pending errors one at a time, the most recent first, and IL_NO_ERROR when none is left; the queue keeps the 32 most recent errors and calls that succeed neither add to it nor take anything from it. An API call that reports failure (IL_FALSE, NULL or 0 where that is no valid answer) or is given an invalid enumerant, name, file or NULL pointer leaves at least one error pending: IL_INVALID_ENUM for unknown states, IL_INVALID_PARAM for values out of range, IL_COULD_NOT_OPEN_FILE, IL_FILE_ALREADY_EXISTS, IL_STACK_OVERFLOW or IL_STACK_UNDERFLOW as documented. A refused call other than a load changes no image, selection or setting, and iluErrorString has a text for every error.',
     [H, I], 'all sequences of valid and invalid API calls',
     'The tests stop at the first error and never look at more than one.',
     [IL + 'il_error.cpp'],
     [('error queue', IL + 'il_error.cpp ilSetError/ilGetError')],
     observe=['ilGetError'])

prop('C14', 'Blit and overlay paste exactly the clipped rectangle',
     'ilBlit and ilOverlayImage paste the source (or the given part of it) at the given position of the bound image: every destination pixel covered by the clipped region gets the source colour, blended by source alpha when IL_BLIT_BLEND is enabled and the source has alpha, and every other pixel (and the alpha a blend meets) is unchanged; positions count from the upper left corner of both pictures. '
     'This holds for negative offsets, parts outside either image, either origin, and different formats, types and depths, and the source image is unchanged; a missing source, or true colour pasted into an indexed image, is refused and changes nothing.',
     [I, C], 'all image pairs, offsets, part sizes, blending on or off',
     'The tests never blit.',
     [IL + 'il_devil.cpp'],
     [('clipping and blending loops', IL + 'il_devil.cpp ilBlit, ilOverlayImage')],
     observe=['ilBlit', 'ilOverlayImage', 'ilGetData'])

prop('C15', 'ILU geometry operations place every pixel as defined',
     'iluFlipImage, iluMirror, iluCrop, iluEnlargeCanvas (with every placement), iluRotate by multiples of 90 degrees, iluSwapColours, iluInvertAlpha, iluWave and iluNegative give exactly the image their definition says, for every size, depth, format, type and origin, with rows counted in the order of the image; rotation by other angles gives the size of the turned picture and takes every pixel from the place it comes from, or from the clear colour outside. A region confines iluNegative; flip, mirror, negative and colour swap undo themselves, crop undoes an enlargement, and other frames of the image stay as they are. A part outside the image, a canvas smaller than the image, and formats an operation has no meaning for are refused with an error and change nothing.',
     [I], 'all images, offsets, sizes, placements, angles and regions, in sequences of operations',
     'The tests call a few of these on one picture and look only at one result file.',
     [ILU + 'ilu_manip.cpp', ILU + 'ilu_rotate.cpp'],
     [('per function loops', ILU + 'ilu_manip.cpp')],
     observe=['iluFlipImage', 'iluMirror', 'iluCrop', 'iluEnlargeCanvas', 'ilGetData'])

prop('C16', 'ILU filters act on every pixel and stay inside the image',
     'Every ILU filter keeps dimensions, format, type, origin, the other frames and other images, and a refused call sets an error and changes nothing. iluBlurAvg, iluBlurGaussian, iluEmboss, iluEdgeDetectE and iluConvolution give |sum/scale + bias| of their 3x3 kernel in every slice, truncated and at most 255, with border pixels duplicated and the four corners copied (blurring adds the bias 1; a blurred image of one colour stays of one colour); iluEdgeDetectP/S combine two kernels as the root of the sum of squares; iluSharpen moves each value away from its gaussian blur by the factor. These work on bytes: other types and indexed images give what the converted image gives. iluPixelize gives blocks their average in each channel; iluNoisify adds one random value of at most the tolerance to all colour channels of a pixel, none to alpha. A region set with iluRegioniv/iluRegionfv confines these neighbourhood filters, pixelise and noise: outside of it no pixel changes, inside they act on all. iluScaleAlpha, iluScaleColours, iluGammaCorrect, iluSaturate, iluContrast and iluAlienify map every pixel (or palette entry) by their formula, rounded and clamped to the type (floats unclamped), for every channel order and type, and keep alpha (iluScaleAlpha: the colours); neutral parameters change nothing. iluSepia, iluEqualize, iluEqualize2 and iluReplaceColour do so for byte images.',
     [I, C], 'all images, parameters and regions',
     'The tests run each filter once with one parameter.',
     [ILU + 'ilu_filter.cpp', ILU + 'ilu_filter_rcg.cpp', ILU + 'ilu_manip.cpp', ILU + 'ilu_noise.cpp', ILU + 'ilu_region.cpp'],
     [('convolution', ILU + 'ilu_filter.cpp Filter'), ('region mask', ILU + 'ilu_region.cpp')],
     observe=['ilu*', 'ilGetData'])

prop('C17', 'Scaling gives the requested size and stays within the source range',
     'iluScale and iluEnlargeImage give an image of exactly the requested dimensions (0 counts as 1) with the same format, type and origin, and leave every other image alone; a refusal sets an error and leaves the image as it was. With ILU_NEAREST new pixel (x,y,z) is the source pixel (x*w/W, y*h/H, z*d/D) rounded down, and the palette of an indexed image stays. With ILU_LINEAR values are interpolated between neighbours along the rows, with ILU_BILINEAR (and with every filter when no side grows) in all directions, at the sample position x*w/W, in the range of the channel type and to within one step. The other filters enlarge flat byte images that are not indexed by convolution with their kernel (normalised weights, reflected borders) and refuse other images. Every filter keeps an image of one colour; filters without negative lobes stay within the range of the source values. Indexed images that are interpolated are quantised to a new palette of the same type. iluBuildMipmaps replaces the mipmaps by the chain of halved sizes down to 1x1x1, each scaled from the one before, and leaves the image itself alone.',
     [I, C], 'all source and target sizes, depths, formats, types and filters',
     'The tests never scale with odd or one pixel sizes.',
     [ILU + 'ilu_scale.cpp', ILU + 'ilu_filter_rcg.cpp'],
     [('sampling loops', ILU + 'ilu_scale.cpp iScaleImage')],
     observe=['iluScale', 'iluEnlargeImage', 'ilGetData'])

prop('C18', 'Palettes convert, save and load without changing colours',
     'ilConvertPal to any palette type keeps the number, the order, the colours and (between types with alpha) the alpha of the entries, makes entries without alpha opaque, and leaves the pixels alone; a bad type is refused without change. ilSavePal writes a JASC file with exactly the colours of the palette (256 entries, the rest black), refuses other extensions and, unless overwriting is enabled, files that exist, and leaves the image as it was; ilLoadPal reads JASC, Halo, ACT, COL and PLT palette files with every colour in its place. A damaged file, one with no or more than 256 colours, or one cut short is refused with an error, the old palette kept and no memory touched that is not owned; pixels never change. ilRegisterPal keeps its own copy, and ilGetPalette and the IL_PALETTE_* queries agree with it. Expanding an indexed image gives each pixel its palette colour.',
     [I], 'all palettes of 1 to 256 colours of all types, all palette file contents',
     'The tests never touch palettes.',
     [IL + 'il_pal.cpp'],
     [('palette conversion', IL + 'il_pal.cpp ilConvertPal/iConvertPal'), ('palette files', IL + 'il_pal.cpp')],
     observe=['ilConvertPal', 'ilSavePal', 'ilLoadPal', 'ilGetPalette'])

prop('C19', 'Quantisation yields a valid indexed image close to the original',
     'Converting a colour image to IL_COLOUR_INDEX gives at most the requested number of colours, every index inside the palette, and the dimensions and orientation of the original. '
     'With the Wu quantiser each colour used is the mean of the pixels it stands for, and a picture whose (well separated) colours are within the limit is shown exactly; with the neural quantiser each pixel gets the colour nearest to it. '
     'The result depends on nothing but the image and the settings.',
     [I, C], 'all images, quantisation modes and colour limits',
     'The tests quantise at most one picture, and compare nothing.',
     [IL + 'il_quantizer.cpp', IL + 'il_neuquant.cpp', IL + 'il_convert.cpp'],
     [('Wu quantiser', IL + 'il_quantizer.cpp'), ('NeuQuant', IL + 'il_neuquant.cpp')],
     observe=['ilConvertImage', 'ilGetPalette'])

prop('C20', 'DXT data is produced and decoded correctly',
     'ilGetDXTCData, ilCompressDXT, ilSurfaceToDxtcData and ilImageToDxtcData produce exactly the block data size the dimensions and depth imply (8 bytes a block for DXT1, DXT1A and ATI1N, 16 for the others) and leave the image as it was. Every pixel of the image (alpha and 3DC channels included) is coded with the nearest value its block has, blocks of at most two representable colours or alpha values come back exactly, other blocks within the range of their own colours, for every origin and for sizes that are not multiples of four as well; DXT1 pixels are transparent exactly when their alpha is below 128. ilDxtcDataToSurface and ilDxtcDataToImage decode DXT1, DXT3 and DXT5 blocks as the S3TC definition says, ilTexImageDxtc keeps the data it is given, ilFlipSurfaceDxtcData and ilInvertSurfaceDxtcDataAlpha turn the coded picture upside down and invert its alpha. The image and chain functions treat every frame and mipmap and keep the selection; unknown formats and empty sizes are refused with an error and no change.',
     [I, C], 'all images, sizes and DXT formats',
     'The tests never look at DXT data.',
     [IL + 'il_dds.cpp', IL + 'il_dds-save.cpp'],
     [('Compress, DecompressDXT*', IL + 'il_dds*.cpp')],
     observe=['ilGetDXTCData', 'ilCompressDXT', 'ilDxtcDataToImage'])

prop('C21', 'Registered handlers are used for their extension and can be removed',
     'A handler registered with ilRegisterLoad or ilRegisterSave is called for exactly its extension, without regard to case, and gets the file name it was registered for: load handlers come before the loaders of the library, save handlers are asked for the extensions the library does not know. Registering an extension again keeps the first handler and is no error; ilRemoveLoad and ilRemoveSave of a registered extension remove it for good, wherever it stands in the list and without touching the others, and of another one fail with an error. An error returned by a handler makes the load or save fail and is queued. What a handler sets with the ilRegister* calls (origin, palette, image and mipmap counts) shows in the image it loads; a load that no handler takes part in leaves the image alone.',
     [H], 'all sequences of registering, removing, loading and saving with any set of extensions',
     'The tests register nothing.',
     [IL + 'il_register.cpp'],
     [('handler lists', IL + 'il_register.cpp')],
     observe=['ilRegisterLoad', 'ilRegisterSave', 'ilRemoveLoad', 'ilRemoveSave'])

prop('C22', 'An allocation failure is reported and corrupts nothing',
     'When any one allocation made through the memory functions set with ilSetMemory fails, the call in progress reports failure with an error or completes correctly, touches no memory it does not own, and leaves every image consistent. '
     'Afterwards the library works normally, and after deleting the images nothing more stays allocated than after the same calls without the fault.',
     [F], 'every allocation of every operation, one at a time',
     'The tests cannot make an allocation fail.',
     [IL + 'il_alloc.cpp', IL + 'il_devil.cpp'],
     [('null checks after ialloc/ilNewImage', IL + '*.cpp')],
     observe=['ilSetMemory', 'ilGetError'])

prop('C23', 'Load settings for origin, format and type are honoured',
     'With IL_ORIGIN_SET, IL_FORMAT_SET or IL_TYPE_SET enabled, every picture of a loaded file (frames, mipmaps, faces and layers) has the origin, format or type chosen by ilOriginFunc, ilFormatFunc or ilTypeFunc, and is exactly what a load without the modes gives after flipping and ilConvertImage. With IL_CONV_PAL enabled an indexed file loads as a true colour image, with IL_USE_KEY_COLOUR the key colour becomes transparent when the modes convert a picture, and a file that does not load without the modes does not load with them.',
     [I, C], 'all files and all combinations of load settings',
     'The tests load with the default settings only.',
     [IL + 'il_internal.cpp', IL + 'il_io.cpp', IL + 'il_states.cpp'],
     [('ilFixImage after each load', IL + 'il_internal.cpp ilFixImage/ilFixCur')],
     observe=['ilLoadL', 'ilEnable', 'ilGetInteger'])

prop('C24', 'Files are never overwritten or chosen by a wrong extension',
     'Unless IL_FILE_OVERWRITE (or IL_FILE_MODE) allows it, saving to an existing file fails and leaves it byte for byte as it was; with it the file holds the new image only. '
     'ilSaveImage chooses the format by the extension, in any letter case, and an unknown or missing extension fails without creating a file.',
     [I, C], 'all save functions, types, paths, extensions and overwrite settings',
     'The tests only write new files.',
     [IL + 'il_io.cpp', IL + 'il_states.cpp'],
     [('overwrite check in each saver', IL + 'il_<format>.cpp'), ('extension dispatch', IL + 'il_io.cpp ilSaveImage')],
     observe=['ilSave', 'ilSaveImage', 'ilSavePal'])

prop('C25', 'Well formed files decode to the picture they describe',
     'A well formed file written by an independent encoder from the format description loads with the dimensions and pixel colours it encodes, for every variant the loader supports (bit depths, palettes, run length coding, origins, interlacing, ASCII and binary, both byte orders), with its further pictures, mipmaps, cube map faces and volume planes.',
     [I], 'all pictures and all variants of BMP, TGA, PCX, PNM, SGI, GIF, ICO, PNG, TIFF, JPEG, DDS, HDR, XPM, PSD, SUN and other formats with a writer in the check',
     'The tests load one file per format.',
     [IL + 'il_*.cpp (loaders)'],
     [('decoder of each format', IL + 'il_<format>.cpp')],
     observe=['ilLoadL', 'ilGetData'])

prop('C26', 'Saved files are well formed for independent readers',
     'Every BMP, PNG, TGA, SGI, PCX, PNM (P1 to P6), TIFF, PSD, RAW, VTF, WBMP, HDR and C header file the library saves follows the description of its format (sizes, offsets and header fields agree with the data, nothing is missing or left over) and an independent decoder - libpng, libtiff or one written from the description - gets the same size, orientation, colours and alpha from it: exact where the format has the bits of the image, otherwise the nearest or next lower value; sixteen bits stay sixteen bits in PNG, TIFF, PSD, SGI, VTF and text PNM. The options are honoured: IL_TGA_RLE, IL_SGI_RLE, IL_PNG_INTERLACE, IL_VTF_COMP, the compression hint for PNM and TIFF, and the strings of TGA (40 and 80 characters, id 254), PNG, TIFF and C headers, cut to the space there is. Volumes give their first slice where the format has one. An image is refused, with an error, only when the format cannot hold it: its size does not fit the header fields (16 bit), VTF of sizes not a power of two, luminance with alpha in TGA, floats in PNG, other than bytes (text: shorts) in PNM.',
     [I, C], 'every picture, size (including those around 65536), depth, type, origin, palette and save option',
     'The tests read the files back with the library itself.',
     [IL + 'il_*.cpp (savers)'],
     [('encoder of each format', IL + 'il_<format>.cpp')],
     observe=['ilSaveL'])

prop('C27', 'Results depend only on the input, never on memory contents or history',
     'The same call on the same image, file and settings gives the same bytes and pixels every time, whatever fresh memory contains, whatever was loaded, saved or failed before, and whichever other images exist.',
     [I, H], 'all operations, repeated with different heap contents and different preceding operations',
     'The tests run each operation once in a fresh process.',
     [IL + '*.cpp', ILU + '*.cpp'],
     [('initialisation of buffers and static state', IL + '*.cpp')],
     observe=['ilLoadL', 'ilSaveL', 'ilConvertImage', 'ilu*'])

prop('C28', 'Nothing stays allocated once the images are deleted',
     'After any sequence of loads, saves, conversions and edits, successful or failed, deleting the images and shutting the library down frees every block it took from the memory functions set by ilSetMemory, and no block is freed twice.',
     [H, I, F], 'all operation sequences, including failing ones',
     'The tests do not count allocations.',
     [IL + '*.cpp', ILU + '*.cpp'],
     [('ilCloseImage, ilShutDown and clean up paths', IL + 'il_devil.cpp, il_stack.cpp')],
     observe=['ilSetMemory', 'ilShutDown'])

prop('C29', 'Alpha and colour key operations change exactly what they say',
     'ilSetAlpha gives every pixel the alpha value asked for (adding a channel where there is none, the palette colours for indexed images) and keeps every colour; ilModAlpha does the same to images without alpha and leaves others alone; ilGetAlpha returns the alpha of every pixel in order and in the requested type, opaque where the image has none. ilClearImage sets every pixel to the clear colour (its luminance in grey images), ilClampNTSC limits bytes to 16..235, and with IL_USE_KEY_COLOUR a conversion makes exactly the pixels of the key colour (or the key index) transparent. Nothing else of the image and no other image changes.',
     [I], 'all images, formats and types, alpha values in and out of range, key colours and clear colours',
     'The tests never use these calls.',
     [IL + 'il_manip.cpp', IL + 'il_convert.cpp', IL + 'il_devil.cpp'],
     [('per type loops', IL + 'il_manip.cpp, il_devil.cpp')],
     observe=['ilSetAlpha', 'ilGetAlpha', 'ilClearImage', 'ilGetData'])

prop('C30', 'Image queries report what the image holds',
     'iluCompareImage is true exactly when the selected picture and the main picture of the other image have the same dimensions, format, type, origin, pixels and (for indexed images) palette; iluColoursUsed counts the distinct pixel values of the selected picture; and iluGetImageInfo, ilGetInteger, ilGetIntegerv, ilGetData, ilGetPalette and the IL_PALETTE_* and IL_NUM_* queries all describe that same picture. No query (these, ilGetAlpha, ilCopyPixels, ilGetDXTCData, the type tests, ilSaveL) changes an image, the bound image or the selected sub image.',
     [I], 'all images and pairs of images',
     'The tests never ask.',
     [ILU + 'ilu_manip.cpp', ILU + 'ilu_main.cpp', ILU + 'ilu_internal.cpp', IL + 'il_states.cpp'],
     [('comparison and counting loops', ILU + 'ilu_manip.cpp')],
     observe=['iluCompareImage', 'iluColoursUsed', 'iluGetImageInfo', 'ilGetInteger'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(p) + '\n')
