"""The properties, their anchors and deciding technique (source of
properties.jsonl and MANIFEST.json)."""
HOOKS = {'guard': 'none',
         'enable': 'no hooks: the monitors wrap the public calls and watch the image buffers and files they touch',
         'source_commits': []}
NOT_APPLICABLE = []
NOTES = ('Every check runs the library from the working tree of /repo with /opt/venv/bin/python. '
         'Commits of /repo whose message starts with "fix:" repair defects the checks found; '
         'known-findings.json lists them and the ones left open.')
B, P2, FR, ML, CO = ('pythonbmp/BITMAPlib.py', 'pythonbmp/primitives2D.py', 'pythonbmp/fractals.py',
                     'pythonbmp/mathlib.py', 'pythonbmp/colors.py')
SAMPLED = ('the existing tests compare a few fixed pictures with stored bitmaps; they never vary ')
PROPS = []


def prop(id, title, statement, text, why, files, mech, tech, over=('inputs',), note=None):
    d = dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
             tech=tech, over=list(over))
    if note:
        d['note'] = note
    PROPS.append(d)


prop('P01', 'New images are well-formed bitmaps of the requested size, depth and palette',
     'For every width, height >= 1 and every supported depth (1, 4, 8, 24 bits) a newly created image is a byte '
     'buffer of exactly header + palette + height rows padded to 4 bytes, whose header fields (file size, pixel data '
     'offset, width, height, depth, compression none) agree with that layout for dimensions of any magnitude, with the '
     'default palette of the depth and every pixel 0. The accessors for width, height, depth, last coordinates, centre, '
     'colour count, point-in-image, list-of-points-in-image and default-palette test report exactly what the header and '
     'palette say, for new, resized-header and palette-edited images alike.',
     'every width, height (1 .. beyond 16 bits) and depth; every point, inside or outside',
     SAMPLED + 'widths over the row padding and byte boundaries or beyond one byte of a header field.',
     [B, 'pythonbmp/inttools.py', 'pythonbmp/bmpconstants.py', 'pythonbmp/bmppal.py'],
     [('newBMP/_setmeta/_getbmflsz', B), ('readint/writeint', 'pythonbmp/inttools.py'),
      ('getmaxxy, bottomrightcoord, isinBMPrectbnd, isdefaultpal', B)],
     'independent header/layout parser as oracle over each buffer created, geometry accessors checked against it')
prop('P02', 'Saving and loading keeps every byte; bad files are refused with a message',
     'Saving any valid image to any path and loading it again yields the same buffer byte for byte, the file holds '
     'exactly the image (also when it overwrites a longer or shorter file), and saving does not change the image in memory. '
     'Loading a file with extra data after the bitmap loads the bitmap only; loading something that is missing or is not an '
     'uncompressed Windows bitmap of a supported depth reports it instead of returning a damaged image as if it were valid, '
     'and never changes the file.',
     'all images (size, depth, palette, padding and unused header bytes), all prior file contents, histories of saves and loads',
     SAMPLED + 'header bytes, trailing data, previous file contents or sizes needing more than one byte of a field.',
     [B, 'pythonbmp/inttools.py'], [('loadBMP', B), ('saveBMP', B), ('_flsz/_setflsz', B)],
     'file-content monitor and byte-level reference decoder over save/load histories in a scratch directory',
     over=('inputs', 'histories', 'fault_sequences'))
prop('P03', 'A pixel write changes exactly that pixel; reads return what was written',
     'At every depth, writing a valid colour at a point inside the image (by coordinate, by vector, as RGB, as a point '
     'list, or by swapping two colours) changes exactly the addressed pixels and leaves every other pixel, the header, the '
     'palette, row padding and the buffer length alone; a point outside writes nothing. Reading a pixel (as value or RGB) '
     'returns the value last written there. RGB writes to palette images store the exact palette entry when there is one; '
     'raw row/column block reads and writes transfer exactly the addressed bytes.',
     'every image size, depth, palette, point (inside, on the border, outside, negative) and colour; every history of writes and reads',
     SAMPLED + 'row positions within packed bytes, out-of-range points, or histories.',
     [B, CO], [('plotxybit, getxybit, plotRGBxybit, getRGBxybit', B), ('swapcolors', B),
               ('BMPbitBLTput/get, vertBMPbitBLTget', B), ('matchRGBtopal', CO)],
     'step-by-step mirror model of the image compared with the whole buffer after each operation',
     over=('inputs', 'histories'))
prop('P04', 'Lines, spans, polylines, polygon outlines and grids paint exactly their pixels',
     'At every depth, drawing a horizontal, vertical or sloped line, a span, a polyline, a polygon outline, a list of '
     'polygons, an arrow or a grid whose points lie inside the image paints, in exactly the colour given, a connected set '
     'of pixels that includes both end points of every segment, has one pixel per step along the longer axis and stays '
     'less than one pixel from the true segment, and changes nothing else. Horizontal and vertical lines include '
     'every pixel between and including their ends whichever end is given first.',
     'every pair / list of points inside images of every size and depth, in every order; every colour',
     SAMPLED + 'direction, slope, byte alignment, length-one segments or depth together.',
     [B, P2], [('line/intlinevec/linevec', B), ('horiline/vertline', B), ('iterline/lineseg', P2),
               ('plotlines, plotpoly, drawvec, xygrid', B)],
     'painted set observed on two complementary canary backgrounds, judged by an integer-geometry oracle')
prop('P05', 'Filled rectangles, polygons and row fills paint exactly the enclosed pixels',
     'At every depth, a filled rectangle inside the image (corners in any order) paints exactly its pixels in the colour '
     'given. A filled polygon inside the image paints in every row exactly the pixels from the leftmost to the rightmost pixel '
     'of its outline in that row; a row fill from a list of boundary points per row does the same. With a corner outside the '
     'image both are refused with a message and nothing is painted. A filled parallelogram given by three corners covers its four '
     'corners and (with a horizontal side) every row without gaps, and stays within about a pixel of the true parallelogram. Nothing '
     'else of the image (other pixels, header, palette, padding, length) changes.',
     'every rectangle, polygon, parallelogram and row boundary, inside or with corners outside, at every image size, depth and colour',
     SAMPLED + 'corner order, byte alignment, single-row or single-column shapes or clipping.',
     [B, P2], [('filledrect', B), ('fillboundary/plotpolyfill', B), ('filledparallelogram', B), ('polyboundary', P2)],
     'painted set observed on two canary backgrounds, compared with the row hull of the outline')
prop('P06', 'Circles, ellipses, arcs and round pens paint the shape asked for',
     'At every depth a circle outline (inside the image) has the four extreme points, is symmetric, gap-free and stays within '
     'half a pixel of the true circle; an ellipse outline touches its four extreme points, is symmetric, connected and stays within about '
     'one pixel of the true ellipse; the filled forms paint in every row exactly the pixels from the left to the right outline pixel. '
     'A round pen paints the filled disc of its radius (radius 1 or less: one pixel); thick lines, polygons, circles and rotated ellipses paint the union of '
     'pen discs along the thin shape; an arc paints the outline pixels whose angle (clockwise from the top, degrees) lies in the range given, and the two radii, a filled arc in every row also the pixels between its outermost outline pixels. '
     'Only the colour given is painted and nothing else changes.',
     'every centre, radius, pen radius, angle, size, depth and colour',
     SAMPLED + 'radii 0, 1, 2, parity, axis ratio, angle ranges and depth together.',
     [B, P2], [('circle/filledcircle/thickcircle', B), ('ellipse/filledellipse/thickellipserot', B), ('drawarc', B),
               ('roundpen/thickroundline/thickplotpoly', B), ('itercircle*, iterellipse*, arcvert', P2)],
     'painted set observed on two canary backgrounds, judged against circle / ellipse / distance geometry')
prop('P07', 'Clipping: shapes across or beyond the border only touch the image inside',
     'Drawing any shape (point, pen, circle, disc, ellipse, arc, thick line, thick polygon, curve, span, text, polygon) '
     'partly or wholly outside an image paints exactly the part of the shape that lies inside (a line: the line between its '
     'end points moved to the nearest pixels of the image); nothing wraps to other rows, and buffer length, '
     'header, palette and padding stay as they were; no drawing call fails because of where the shape lies.',
     'every shape position from inside to far outside (negative, huge) on every image size and depth',
     SAMPLED + 'shape positions outside the image.',
     [B, P2], [('horiline/vertline clipping', B), ('circle/ellipse boundary tests', 'pythonbmp/conditionaltools.py'),
               ('plotxybit/isinBMPrectbnd', B), ('roundpen', B)],
     'same shape drawn on a larger canvas as reference; canary buffers around pixels, palette and padding')
prop('P08', 'Flips and mirrors of images and rectangles move every pixel where it belongs',
     'At every depth, flipping an image or a rectangle of it vertically or horizontally puts each pixel at its mirror position; a '
     'mirror of the top, bottom, left, right half or of a corner quarter keeps that part and fills the others with its '
     'reflection (the middle row or column stays); pixels outside the rectangle, header, palette and length are unchanged, corners '
     'of a rectangle may come in any order, and flipping twice restores the image. The flipXY operation returns a new image of '
     'exchanged width and height, the reflection about a diagonal (8 and 24 bit: the one through the bottom left corner; 1 and 4 bit: '
     'the main one), leaves its source alone and undoes itself when applied twice.',
     'every image size, depth, content, rectangle and sequence of operations',
     SAMPLED + 'odd and even sizes, byte alignment of rectangles in packed rows, or sequences.',
     [B, 'pythonbmp/bufferflip.py', 'pythonbmp/buffersplit.py'],
     [('flipvertical/verttrans/verttransregion', B), ('fliphorizontal/fliphorizontalregion', B), ('mirror*', B),
      ('flipXY', B), ('rotatebitsinbuf/swapnibbles', 'pythonbmp/bufferflip.py')],
     'whole buffer compared with the same operation on an independent pixel grid, also over histories',
     over=('inputs', 'histories'))
prop('P09', 'Operations on a circular region change exactly the pixels of the circle',
     'A circular region covers in every row of the filled circle the pixels from its left outline pixel up to, not including, its right '
     'outline pixel. At every depth they support, flips and mirrors (also about the diagonal), copies (to a place of this or another image of the same '
     'depth), inverts, outlines, line erasures, colour / mono / gamma / brightness / threshold filters, brightness gradients, magnification '
     'and pixelation of a circular region change only pixels of the circle (horizontal ones: of its columns), and give them the value the operation defines: the '
     'mirrored or copied pixel, the complement, the filter applied to the whole image, and so on. Pixel filters, inverts and outlines are clipped at '
     'the image border; the others refuse a circle that is not wholly inside, or a depth they do not take, with a message and '
     'leave the image as it was.',
     'every centre, radius, image size, depth, content and parameter of the operation; circles inside, across and beyond the border',
     SAMPLED + 'depth, radius, parity or circles at the border.',
     [B], [('*circregion, copycircregion2buf, pastecirularbuf', B), ('_use24btclrfn2circreg', B), ('itercirclepartvertlineedge', P2)],
     'whole image compared with the operation on an independent pixel grid over the rows of the circle')
prop('P10', 'Copying, cropping and pasting rectangles transfers exactly their pixels',
     'At every depth and for rectangles of any size whose corners (given in any order) lie inside the image: cropping returns a new image of exactly '
     'the size of the rectangle with its pixels and the palette of the source; copying the rectangle and pasting it at a place where it fits, in '
     'the same image or another of the same depth, changes exactly the pixels under it to the copied ones; converting the copy gives an image of its size, '
     'pixels and depth with the default palette; reading the colours of the rectangle yields every point with its colour, row by row. The source stays '
     'as it was. A rectangle not wholly inside, a paste that does not fit and a paste of another depth are refused with a message and change nothing.',
     'every rectangle, place, image size, depth, palette and content; every sequence of copies, crops, pastes and writes',
     SAMPLED + 'byte alignment in packed rows, corner order, sizes beyond two bytes or pastes at the border.',
     [B], [('copyrect, pasterect, convertselection2BMP', B), ('crop, itercopyrect, itergetcolorfromrectregion', B),
           ('entirerectinboundary', 'pythonbmp/paramchecks.py')],
     'whole image compared with the operation on an independent pixel grid, also over clipboard histories',
     over=('inputs', 'histories'))
prop('P12', 'Upgrading an image to 24 bits keeps every visible colour',
     'Upgrading a 1, 4 or 8 bit image of any size and palette gives a new 24 bit image of the same width and height in which every pixel has exactly the '
     'palette colour of the source pixel; the source stays as it was. A 24 bit image is returned as it is with a message. The row converter '
     'turns each packed pixel into the three bytes of its palette entry, in order.',
     'every image size, depth, palette and content',
     SAMPLED + 'widths not filling a byte, palettes other than the default or sizes beyond two bytes.',
     [B], [('upgradeto24bitimage, convertbufto24bit, getBGRpalbuf', B), ('itercopyrect', B), ('enumbits', ML)],
     'every pixel of the result compared with the palette of the source read by an independent decoder')
prop('P13', 'Enumerations of an image report every pixel, colour, neighbour and edge',
     'At every depth and size, the pixel iterators yield each pixel of the image exactly once, bottom row first and left to right, with its value or RGB colour; the '
     'histogram lists each colour once with its exact pixel count, most frequent first; the neighbours of a point are exactly the up to eight points of the image '
     'around it (and the point, if asked for), also at the border; the edge list names for every pixel with a neighbour more distant in colour than the '
     'threshold one such neighbour, and nothing else; the region of a colour is exactly the pixels nearer to it than the threshold. A palette made from a histogram '
     'starts with black, holds colours of the image by falling frequency, no two nearer than the threshold, leaves none out '
     'unless full, and is stored in the new image. The image itself never changes.',
     'every image size, depth, palette, content, point and threshold',
     SAMPLED + 'packed rows of every width, border pixels or colour counts.',
     [B, P2, CO], [('iterimageRGB/iterimagecolor', B), ('colorhistogram, makenewpalfromcolorhist, setnewpalfromsourcebmp', B),
                   ('itergetneighbors', P2), ('iterimagedgevert, iterimageregionvertbyRGB', B)],
     'enumerations recorded and compared with those of an independent pixel grid')
prop('P14', 'Palette operations change exactly the palette entries they name',
     'Setting one palette entry, or the whole palette from a list of exactly as many RGB, BGR or BGRA entries as the depth has, stores exactly these colours, which reads '
     'return; a list of another length changes nothing. Shifting the palette rotates its entries (1 bit images are refused with a message) and a colour cycle passes through every '
     'rotation once. Monochrome, inverse shifted and dichromatic palettes hold for each entry the brightness level or mix of the two colours that their definition gives; the brightness '
     'adjusted palette scales each colour and saturates; copying palette, header or size copies exactly that; adapting a colour dictionary stores the index of '
     'each colour, or of the nearest one. Pixels, header and padding never change.',
     'every palette, depth, entry, shift, factor and colour; every sequence of palette operations',
     SAMPLED + 'shifts, factors, list lengths or depths together.',
     [B, CO], [('setbmppal*, setRGBpal, getallRGBpal', B), ('palshift, itercolorcycle', B), ('setBMP2monochrome...', B),
               ('monochromepal, mono*pal, dichromaticpal, matchRGBtopal', CO)],
     'palette bytes after each call compared with a mirror palette; everything else watched for changes',
     over=('inputs', 'histories'))
prop('P11', 'Resizing and pixelizing an image gives the scaled picture, pixel for pixel',
     'Enlarging an image of any depth and size n times gives a new image n times as wide and high, with the same depth and palette, in which every source pixel has become '
     'an n by n block of its value. Reducing a 24 bit image n times gives one pixel per whole n by n block (counted from the left and from the bottom), each channel the '
     'mean of the block to the nearest whole number; pixelizing gives the same with every mean shown as an n by n block. Reducing an enlarged image gives the image back. '
     'The source stays as it was; reducing an image of less than 24 bits is refused with a message.',
     'every image size, depth, content and factor from 1 up',
     SAMPLED + 'packed widths, sizes not divisible by the factor, or rounding of means.',
     [B], [('resizeNtimesbigger/resizeNtimessmaller/pixelizenxn', B), ('upsize*, downsize*', 'pythonbmp/bufresize.py'), ('packbitlisttobuf', ML)],
     'every pixel of the result compared with the source pixel or exact block mean it stands for')
prop('P15', 'Colour adjustments change every channel by their formula and nothing else',
     'The monochrome, colour, brightness, gamma and threshold adjustments of a whole 24 bit image or of a rectangle in it (corners in any order), of a row of pixels '
     'and of one colour give: all channels the mean of the three; each channel times its factor; each channel times 1 + percentage/100; the colour scaled to '
     'brightness 255*(max/255)^gamma with its hue kept; the colour scaled so that its largest channel lies within the limits. Each result is saturated to 0..255 and '
     'within one step of rounding (gamma: two) of the exact value. Pixels outside the rectangle never change. A rectangle not inside the image, or '
     'an image of less than 24 bits, is refused with a message and stays as it was.',
     'every image, rectangle, colour, factor, percentage, gamma and limits',
     SAMPLED + 'saturation, black and pure colours, or rectangles at the border.',
     [B, CO], [('*to24bitregion, *to24bitimage', B), ('colorfilter, gammacorrect, thresholdadjust, ...', CO)],
     'every channel compared with the real-valued definition within a stated rounding margin')
prop('P16', 'Gradients run from the first to the last colour in equal steps over their shape',
     'Brightness gradients of a 24 bit image or rectangle scale each pixel by a percentage that runs linearly from the first value at the one side to the second at the other. Gradient filled '
     'rectangles run from the first to the last colour the same way. Gradient filled circles, spheres, ellipses and '
     'thick lines, polylines and curves are a set of strokes of falling width or radius whose colours run linearly, or by the given function, from the first to the second value; every pixel has '
     'the colour of the last stroke that paints it (palette images: the nearest entry), and pixels that no stroke paints never change. One column or one row is allowed. A rectangle not inside the '
     'image, or an unfit depth, is refused with a message and leaves the image as it was.',
     'every image size, content, rectangle, shape, pair of values and interpolation function',
     SAMPLED + 'one-pixel extents, rectangles away from the origin or shapes across the border.',
     [B], [('verticalbrightnessgrad*/horizontalbrightnessgrad*', B), ('filledgradrect/filleddichromaticgradrect', B), ('grad*, thickencirclearea, sphere', B)],
     'every pixel compared with the real-valued gradient of the stroke that paints it last')
prop('P17', 'Inverting, outlining and erasing lines change exactly the pixels they name',
     'At every depth, for the whole image or a rectangle (corners in any order): inverting complements every pixel of it and is undone by repeating it; '
     'outlining replaces every pixel by its exclusive or with the pixel above it in the area (the top row becomes zero); erasing '
     'writes the given bit pattern over the pixels of each row whose number, counted from 1 at the top, is k modulo n (the last of each n when no k is given). Pixels outside '
     'never change. A rectangle not inside the image is refused with a message and the image stays as it was.',
     'every image size, depth, content, rectangle, interval and pattern',
     SAMPLED + 'rectangles that start or end within a packed byte, corner order, or the last row.',
     [B], [('invertimagebits/invertregion', B), ('outline/outlineregion', B), ('eraseeverynth*, erasealternate*', B)],
     'whole image compared with the operation on an independent pixel grid')
prop('P18', 'File versions write exactly what the in-memory operation gives',
     'Every file-to-file version of an image operation (flips, mirrors, crops, auto crop, inverts, outlines, line erasures, palette shift, resizing, pixelation, upgrade, colour adjustments, gradients, circular and '
     'rectangular regions, drawing of rectangles, circles and spheres, marking of the region of a colour) reads the input file, writes to the output path exactly the image that the in-memory operation gives for it with the same parameters '
     '(colour adjustments of images of less than 24 bits: the same pixels with each palette colour adjusted), replaces whatever the output held and names both files in its report. Input (unless it is also the output) '
     'and all other files stay as they were. A missing input, or an image whose depth the operation does not take, is reported and nothing is written. A '
     'colour cycle is written as one file per rotation into the directory asked for, an existing one only if told to.',
     'every operation, image, parameter and output path (new, existing, relative, the input itself)',
     'The golden tests run each with one picture and one set of parameters, always to a new file.',
     [B, 'pythonbmp/fileutils.py'], [('*2file, cropBMPandsave, colorcycle2dir', B), ('_use*sv', B), ('checklink', 'pythonbmp/fileutils.py')],
     'written file decoded and compared with the in-memory operation; directory listing and hashes before and after')
prop('P19', 'Text paints exactly the cells of its character bitmaps, placed by its layout',
     'Drawing a string in any of the styles (plain, italic, reversed, upside down, sideways, vertical; squares or dots) and any font paints for every set bit of every '
     'character one cell of the given scale less the pixel spacing: row by row, letters in order (reversed and upside down: last first), characters 8 cells wide plus the '
     'spacing (at least 1) apart, new lines one character height plus spacing apart, tabs four characters wide; italics shift each row by half a cell. A list of colours is taken in turn, one per font row (not for plain reversed text). '
     'Text files hold the text in an image just large enough with a margin of one cell, on the background. Numbers along points are labelled in order, '
     'and images, bytes and patterns printed as text show every pixel, rows from the top. Nothing else changes; text beyond the border is left out.',
     'every text, font, style, scale, spacing, place, colour list and depth',
     'The golden tests draw a few texts, mostly at one scale and depth to files; no test draws into an image, at its border, sideways or in colour lists.',
     [B, 'pythonbmp/fonts.py', 'pythonbmp/textgraphics.py', 'pythonbmp/chartools.py'],
     [('plotstring*, plotitalicstring*, plotreverse*string*, plotupsidedown*', B), ('plot*8bitpattern*', B), ('plotstringfunc2file, numbervert, plotbmpastext', B)],
     'whole image compared with cells painted one by one at independently computed places')
prop('P20', 'Comparing images and reducing colours give the exact pixel of each result',
     'The difference (or the similar parts) of two image files of the same size and depth is written as an image of that size, depth and the palette of the first whose every pixel is the exclusive or (the and) of the two pixel '
     'values; different palettes are reported; images of different size or depth and missing files are reported and nothing is written. Reducing a 24 bit image to 4 or 8 bits writes an image of the same size '
     'with the palette asked for in which every pixel is its own colour if the palette has it, black (entry 0) if it is black, else the nearest entry that is not black; at 1 bit, '
     'brighter areas set more points and dark ones (channel sum up to 192) none. Other depths are refused. The input files never change.',
     'every pair of images, every depth, palette, threshold and content',
     SAMPLED + 'near ties of colours, images that differ in one pixel or palette alone.',
     [B, CO], [('imagecomp, imagediff, showsimilarparts', B), ('reduce24bitimagebits', B), ('matchRGBtopal, probplotRGBto1bit', CO)],
     'written file decoded and every pixel judged against the two inputs or the palette')
prop('P21', 'Color values, names, palettes and color conversions agree exactly',
     'Every 24 bit color splits into its red, green and blue bytes, in either order, and joins back without loss; buffers of color rows are joined from three channels and swapped red for blue in place, twice giving the original. '
     'Hue, saturation and lightness are those of the color, within half a unit. A brightness times three factors, the factors and brightness of a color, gamma and interpolation between two colors give '
     'the exact value within a unit. Monochrome palettes run evenly from black to the full color; the default palettes and ranges are fixed. A color is matched to the default 16 colors by which of its channels reach 64 (red bit 0, green bit 1, blue bit 2) and whether one reaches 128 (bit 3). '
     'Every color name (CSS, X11 and XKCD tables) has the published value, the same in its RGB, HSL and factor table; each call gives a table of its own.',
     'every color, factor, brightness and color name',
     'The unit tests convert a handful of colors; the thorough check goes through all 2^24 colors and every name.',
     [CO, 'pythonbmp/colordict.py', 'pythonbmp/X11colordict.py', 'pythonbmp/XKCDcolordict.py'],
     [('int2RGB, RGB2int, RGB2HSL, colormix, monochromepal, ...', CO), ('the tables of names', 'pythonbmp/colordict.py')],
     'every result compared with exact rational arithmetic or the published table of names')
IT = 'pythonbmp/inttools.py'
prop('P22', 'Byte, bit, buffer, list, text and timing helpers give exact results',
     'Little-endian integers written anywhere in a buffer read back and change no other byte. Buffers split into n interleaved parts, flip by pixel at every depth (and by bit or nibble in each byte), '
     'grow n times by pixel, pack, unpack and shrink to block means so that every pixel of the result is the one it stands for; row sizes are the whole bytes that hold that many pixels. Bitwise list operations, masks, '
     'transposition, flattening, conditional choice and swap, and dictionaries sorted by falling value are exact. Text is walked in both directions, measured in rows and columns (tabs are four wide) and mapped to its font rows. '
     'Elapsed times are shown as hh:mm:ss.nnnnnnnnn; a timed function keeps its name, result and exceptions. Arguments are never changed, save the one to be written to.',
     'every buffer, depth, factor, integer, list and text',
     'The unit tests use one or two short buffers each; they cannot show every length, depth and value.',
     [IT, 'pythonbmp/buffersplit.py', 'pythonbmp/bufferflip.py', 'pythonbmp/bufresize.py', 'pythonbmp/mathlib.py', 'pythonbmp/conditionaltools.py', 'pythonbmp/dicttools.py', 'pythonbmp/chartools.py', 'pythonbmp/textgraphics.py', 'pythonbmp/funcmeta.py', 'pythonbmp/proctimer.py', 'pythonbmp/fonts.py'],
     [('readint, writeint, int2buf, buf2int', IT), ('altsplitbuf*', 'pythonbmp/buffersplit.py'), ('flipbuf, rotatebitsinbuf', 'pythonbmp/bufferflip.py'), ('resizebufNtimesbigger, pack*, unpack*', 'pythonbmp/bufresize.py'), ('functimer', 'pythonbmp/proctimer.py')],
     'every result compared with plain integer, pixel list and text models; arguments compared before and after')
MA = 'pythonbmp/mathlib.py'
prop('P23', 'Vector, coordinate, statistics, interpolation and transform math is correct',
     'Vector arithmetic, products, norms, direction angles, clamps, mirrors, rotations, determinants and plane normals agree with their definitions for every vector. Polar, cylindrical and spherical '
     'coordinates convert there and back in every quadrant. Mean, deviations, standard deviation, coefficient of variation, least squares line, correlation and t value are those of the data. Linear and smooth step interpolation '
     'have the exact polynomial and their inverses undo them. The fast Fourier transform equals the discrete one, and its inverse restores the input times its length. Newton\'s method returns the point and step at which the step '
     'falls below the tolerance, or nothing. Distance tables list every ordered pair of places once. A two dimensional histogram puts every point in the bin it falls in, so that the counts add up to the number of points.',
     'every vector, point list, data set, bound and bin count',
     'The unit tests evaluate a few vectors each, nearly all in the first quadrant; several wrong formulas passed them.',
     [MA], [('vector, matrix and coordinate functions', MA), ('fft, ifft, newtonmethod, histogram2D', MA)],
     'every result compared with the textbook definition within a stated margin of rounding')
PR = 'pythonbmp/primitives2D.py'
prop('P24', 'Curves, polygons, spirals and splines have the vertices of their equations',
     'Spirographs, Lissajous curves, circle involutes, epicycloids, hypotrochoids, flowers, superellipses, squircles, gears, hearts, Cornu spirals and eggs yield for every step of their parameter, as iterator and as list, the point of their equation '
     'about the given center, within a pixel. Bezier curves of any number of control points start and end on the outer ones and follow the curve without gaps; B-splines likewise, open or closed. Regular polygons '
     'have the asked number of corners evenly around the circle from the given rotation. Rectangle corners, rows, columns and spiral control points are exact; tests whether points or circles lie inside a rectangle hold strictly inside and fail outside. Flowers (plain, filled) and squircles '
     'drawn into an image of any depth paint exactly the points or edges of their curve that lie in it, with the color of their brightness, and nothing else.',
     'every center, size, rotation, step, number of petals, teeth, corners and control points',
     'The unit tests draw one of each; wrong equations were pinned by nothing.',
     [PR, B], [('iter* / *vert', PR), ('floatregpolygonvert, iterbspline, iterbeziercurve', PR), ('plotflower, plotfilledflower, squircle', B)],
     'every point compared with the equation in complex arithmetic; splines by distance to a finely sampled exact curve, both ways, and connectedness')
FRA = 'pythonbmp/fractals.py'
prop('P25', 'Fractal values, recursive curves, function systems and attractors are exact',
     'Every escape time, biomorph, Newton, super ellipse, xor and tetration function returns for every point, parameter and limit the number of the first step at which its iteration leaves its bound (or the value of its formula), else the limit. '
     'Every grid iterator visits each pixel of its rectangle (corners in any order, last row and column excluded) once, row by row, with the value at the point of the domain that the pixel stands for. Newton iterators give root and step. Tables of domains, functions with '
     'slopes and function systems are consistent and new at each call. Koch curves and snowflakes have exactly their recursive points; Hilbert curves visit every cell once, stepping to a neighbor. Function system points lie on the '
     'attractor, strictly inside the rectangle, with the given probabilities. Each attractor list follows its recurrence from its start.',
     'every point, parameter, exponent, limit, domain, rectangle and order',
     'The golden tests draw one picture each at one set of parameters, palette colors hide differences; function systems are random and have no test.',
     [FRA], [('escape time functions, iter*', FRA), ('hilbertvert, koch*, iterIFS, *attractorlist', FRA)],
     'every value compared with the iteration written out independently at the point and at points nudged by rounding')
prop('P26', 'Fractal images and files show the color of each pixel\'s value and nothing else',
     'Each fractal drawn into an image of any depth gives every pixel of the rectangle that lies in the image (last row and column excluded) the color of its value c: at 24 bits brightness (255-c)*20 mod 256 times the factors; in palette images the lowest bits of c, with two colors instead '
     'of factors the entry counted from the last (1 bit: c mod 2). Newton\'s fractal uses the factors of the root reached (palette images: the entry counted from the last), leaves points that reach none, and returns the roots. Nothing else changes. Each file version writes exactly that image at '
     'the asked size, depth and with the palette of the factors or colors, up to 255 steps unless told otherwise. Hilbert curve and snowflake files show the lines of their curve with the pen and colors asked for. Ferns and function systems paint their attractor inside the rectangle only.',
     'every fractal, image, rectangle, domain, parameter, factors, depth and file',
     SAMPLED + 'rectangles away from the origin or across the border, other depths or parameters.',
     [B, FRA], [('plotmultifractal*, newtonsfractal, IFS, fern', B), ('save*fractal2file, savehilbertcurve2file, savekochsnowflake2file', B)],
     'every pixel compared with the color of the independently computed value; pixels elsewhere with the image before')
prop('P27', 'Attractor images are histograms of their orbits scaled to all colors',
     'An orbit (points or complex numbers) drawn as an image of any size and depth spreads from its least to its greatest coordinates over the image; every pixel is the number of points that fall on it, less the least number, scaled so that the greatest is the last '
     'color (whole part). The attractor functions and their file versions (Ikeda, N, Gumowski-Mira, Peter de Jong, Clifford, fractal dream, hopalong, symmetric icon, Duffing) draw exactly the orbit of their parameters and number of points; '
     'file versions write only the named file.',
     'every orbit, size, depth and attractor',
     'The golden tests draw each attractor once at 24 bits and 256 x 256.',
     [B, MA, FRA], [('plotattractor, plotattractorcomplex, *attractor, save*attractor2file', B), ('histogram2D', MA)],
     'every pixel compared with bounds from an independent count of the points')
SO = 'pythonbmp/solids3D.py'
CH = 'pythonbmp/charts.py'
prop('P28', '3D solids are closed surfaces of exact shape, wound one way',
     'For every size the tetrahedron, hexahedron (two tetrahedra base to base), octahedron (sides of the given length), cube, decahedron (two pentagonal pyramids base to base) and icosahedron (around the center of a '
     'sphere of the given radius) have the right numbers of vertices and faces and all edges of one length. Sphere vertices lie on the sphere around the given center at all multiples of the angle step, with both poles; cylinders '
     'and cones on the two rims (a cone: base at +z/2, tip at -z/2). The faces of every solid together are exactly the boundary of its convex hull: flat, every edge shared by two faces that run along it '
     'in opposite ways, all faces wound alike and outward. A surface plot has one vertex per grid point (x, y, f(x, y)) and one face per grid cell, all wound one way, whether or not the step divides the area.',
     'every size, center, radius, length, angle step (a divisor of 360 for cylinders and cones), area, step and function',
     'No test touches the solids.',
     [SO], [('*vert, *vertandsurface, getshapesidedict', SO), ('spherevert, genspheresurfaces, zlevelcoords, surfacetest', SO)],
     'geometry of every returned vertex and face: edge lengths, supporting planes, sum of directed edges')
prop('P29', '3D solids are projected, hidden and shaded as seen from the eye',
     'Perspective turns vertices (mirrored in x) by yaw about y, then roll about z, then pitch about x, moves them, and projects them from the origin on a screen at the given distance, so that x runs to the right '
     'and y up; turning keeps all distances. Of the sides of a solid before the eye exactly those that face the eye are kept, in order, moved to their place on the screen, each with its normal. A drawn solid is those '
     'sides filled in a shade that depends only on the angle of the side to the line of sight (from 127 edge on to 255 face on, times the color factors; in palette images the nearest entry), then, if asked for, their outlines in '
     'the outline color, at any depth; nothing else changes.',
     'every solid, turn, move, distance, place, factors, depth and outline',
     'No test touches the solids.',
     [SO, B], [('perspective, gensides, surfacetest, rotvec3D', SO), ('plot3Dsolid, plot3d, plotpolyfillist, plotpolylist', B)],
     'an independent turn and projection of every vertex; visibility decided by outward normals; images compared with the visible sides painted one by one')
prop('P30', 'Charts show their data to scale',
     'The slices of a pie chart start at the top, run clockwise in order, each as wide as its part of the total, and share the whole disc: inside the circle every pixel has the color of the slice at its angle, outside nothing '
     'changes. The data returned give start, end, color, value and percent of each slice and the slice of half the total or more, if any. Axes draw, from the origin to the limits, two arrows, ticks and numbers at every step (and the grid if asked for) with the '
     'numbers that start and step as given, and return the scale and the last values; a value of a tick maps to its place on the screen, other values in proportion, values beyond the limits to (-1, -1) with a message. A scatter '
     'plot marks each point in scale with its circle (radius 5 at most) or pixel, leaves out points beyond the limits, and the regression line runs along the least squares line from the first to the last value, cut off at the upper limit.',
     'every data set, color, radius, scale, limit and depth',
     'No test draws a chart.',
     [CH, B], [('getdatalisttotal, genpiechartdata', CH), ('piechart, XYaxis, userdef2Dcooordsys2screenxy, XYscatterplot', B), ('drawarc, arcvert', P2)],
     'exact slices of the data, every pixel compared by angle and distance; axes and plots compared with each part painted where the scale puts it')
prop('P31', 'Operations refuse what lies outside their limits and take all within',
     'Region operations (copy, crop, flip, mirror, invert, outline, fill, gradients, filters, grid, fern, erase, reading colors) take every region inside the image, its border included and corners in either order of diagonal ends, and refuse regions '
     'with a corner outside. Circle operations that need the whole circle take every circle inside, touching the border included, and refuse the rest; circle operations that clip take any circle. All refuse coordinates or radii '
     'that are not whole numbers, and operations of some depths (24 bits; 8 and 24; 4 and 8) refuse images of others. A refusal prints a message, gives no result, raises nothing and leaves every byte of the image as it was.',
     'every guarded operation, region, circle, depth and kind of number',
     'The tests call the operations with good parameters only.',
     [B, 'pythonbmp/paramchecks.py', P2], [('intcircleparam*, func*only*, entirerectinboundary, entirecircleinboundary', 'pythonbmp/paramchecks.py'), ('operations on regions and circles', B)],
     'image bytes before and after, result and message of each call, against the limits recomputed from size and depth')
prop('P32', 'Results depend on the arguments alone: no call leaves traces',
     'Every function of the library gives the same result, raises the same exception and leaves the same image whatever was called before in the process, and however often it is called with the same or with similar arguments '
     '(the random choices of the few functions that make any depend on the state of the random module alone). A result belongs to the caller: changing it changes neither later results nor the source it was made from; no '
     'argument other than the image or buffer that a function is to change is changed by it, and none is kept, so that changing it afterwards changes no later result.',
     'every function, argument list and history of earlier calls',
     'Each test makes one call of a function with fresh arguments and looks at its result only.',
     [B, P2, FR, ML, CO, SO, 'pythonbmp/fonts.py', 'pythonbmp/bufresize.py', CH],
     [('all public functions', B), ('matchRGBtopal, monochromepal, dichromaticpal', CO), ('getcharfont', 'pythonbmp/fonts.py'), ('multijulia, iterIFS, attractor lists', FR), ('perspective, gensides', SO)],
     'each observed call is repeated, with the same or slightly different arguments, after the history of the process and in a pristine fork; results and argument copies are overwritten after use', ('inputs', 'histories'))
