#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, tests, files, mech, observe=None, claimed=True, note="", na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files, mech=mech,
                  observe=observe or [], claimed=claimed, note=note, na=na))


STD = ("For all inputs with no loop bound: every obligation (memory safety of the real code, loop invariants, class invariant, "
       "postconditions) generated from the LLVM IR that clang produces from /repo's current source is discharged by z3/cvc5. "
       "Trusted: clang -O0 + mem2reg, the irv VC generator, the solvers, and the assumptions listed in the evidence file. ")

# ------------------------------------------------------------------ text output
prop("B01", "Formatting output never leaves its buffer and only ever appends",
     "Whatever sequence of values and settings is streamed into a fixed-buffer text output, only bytes inside the caller's "
     "buffer and past the text already there are written, so nothing outside is touched and earlier text is never altered. "
     "The reported length grows monotonically, never exceeds the capacity, and changing a setting or clearing writes no text; "
     "clearing makes the length zero and restores the default settings.",
     ["inputs", "histories"], "every buffer capacity (up to 2^31), every history of operations with every argument value, including "
     "negative or huge widths and precisions", "The tests stream a few short texts into one roomy buffer; full buffers, width "
     "larger than the room, and mixed histories are not reached.",
     ["BufferedOut.h", "BufferedOut.cpp"],
     [("cursor kept between the buffer's begin and end", "BufferedOut.cpp: addValue, addPadding, operator<<"),
      ("room check before each append", "BufferedOut.cpp: operator<<(uint8_t), operator<<(float)")],
     ["bytes of the buffer and its surroundings", "size()", "capacity()"])
prop("B02", "Integers appear completely and right-aligned, or not at all",
     "Streaming an integer appends its exact decimal representation, left-padded with the current fill character to the pending "
     "minimum width and never truncated; if that text does not fit in the remaining room nothing is appended. "
     "A pending width applies to the next integer that is appended and is then consumed.",
     ["inputs", "histories"], "all values of all six integer types, every width (including zero and negative), fill character, amount "
     "of room and earlier history", "Tests print a handful of integers with room to spare; INT_MIN-like values, exact-fit and "
     "one-short room, numbers longer than the width are not covered.",
     ["BufferedOut.h", "BufferedOut.cpp"],
     [("conversion with std::to_chars and padding", "BufferedOut.cpp: addValue, addPadding"),
      ("width consumed by the integer operators", "BufferedOut.cpp: operator<<(int) ... operator<<(unsigned long long)")])
prop("B03", "Text is appended as the longest prefix that fits",
     "Streaming a character, a string or a string view appends exactly its characters in order, cut only by the end of the buffer: "
     "the longest prefix that fits is appended.",
     ["inputs", "histories"], "all texts (including empty ones and ones containing arbitrary bytes), all capacities and fill levels",
     "Tests append short texts; truncation at every possible fill level is not exercised.",
     ["BufferedOut.h", "BufferedOut.cpp"], [("prefix computation and copy", "BufferedOut.cpp: operator<<(std::string_view), addChar")])
prop("B04", "Bytes appear as two upper-case hex digits, whole bytes only",
     "Streaming a byte or a sequence of bytes appends two upper-case hexadecimal digits per byte, high nibble first, in order. "
     "Only whole bytes are appended: as many leading bytes as fit completely, never half a byte.",
     ["inputs", "histories"], "all byte values and sequences, all capacities and fill levels including odd remaining room",
     "Tests print a few bytes into an empty buffer; odd remaining room and overlong sequences are not reached.",
     ["BufferedOut.h", "BufferedOut.cpp"], [("room check for two digits", "BufferedOut.cpp: operator<<(uint8_t)"),
                                           ("byte sequence loop", "BufferedOut.cpp: operator<<(ConstBytesView)")])
prop("B05", "Floats show sign, truncated integer part and the requested digits",
     "Streaming a float appends its sign when negative, its integer part truncated toward zero, and for a positive precision a decimal "
     "point followed by that many truncated fraction digits (repeated single-precision multiplication by ten), as far as they fit. "
     "If the sign and integer part do not fit, or the integer part is not representable as a 32-bit integer (huge values, infinities, "
     "NaN), nothing is appended.",
     ["inputs", "histories"], "every bit pattern of a single-precision float, every precision >= 0, every capacity and fill level",
     "Tests print two or three floats at default precision; values in (-1,0), huge values, NaN, and truncated room are not covered.",
     ["BufferedOut.h", "BufferedOut.cpp"], [("integer part, sign and fraction loop", "BufferedOut.cpp: operator<<(float)")])
prop("B06", "All views of a text output show exactly the appended text",
     "The character view, the byte views and the raw pointer of a text output all designate the beginning of the caller's buffer and, "
     "where they have a length, exactly the number of characters appended since construction or the last clear, for buffers of any size.",
     ["inputs", "histories"], "all capacities (also above 64 KiB), after every history of operations",
     "Tests compare short contents through one view; large contents and the other views are not compared.",
     ["BufferedOut.h"], [("views computed from begin and cursor", "BufferedOut.h: data, asStringView, operator uint8_t*")])
prop("S01", "Line output transmits exactly the text streamed since the last flush",
     "Ending a message through the serial text output transmits exactly the bytes accumulated since the previous flush and starts the next "
     "message empty; ending a line transmits the accumulated text followed by exactly one newline, and when the buffer is exactly full the "
     "text is transmitted first so the newline is never lost.",
     ["inputs", "histories"], "every buffer capacity from 1 to 65535, every accumulated content, both hardware back ends",
     "The serial output is not built by the test project.",
     ["SerialOut.h", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp"],
     [("flush before a newline that does not fit", "SerialOut.h: operator<<(endl)"), ("send and clear", "*/SerialOut.cpp: flush")])
# ------------------------------------------------------------------ views, endianness
prop("M01", "Sub-views are exactly the requested part and never exceed the original",
     "Taking the first or last n elements or the part starting at an offset yields a view of exactly the requested elements of the original "
     "memory, clamped to what exists; an offset at or past the end yields an empty view. Conversions to byte views, text views and read-only "
     "views designate the same memory with the matching length, and element access, front, back and iteration address the elements in order.",
     ["inputs"], "all view lengths, all offsets and counts including the maximum value, several element sizes",
     "Tests use one short array and a few offsets; boundary and overflow values of offset and count are not covered.",
     ["MemoryView.h"], [("clamping in subspan, first, last", "MemoryView.h: subspan, first, last"),
                        ("byte views", "MemoryView.h: as_bytes, as_writable_bytes")])
prop("E01", "Endianness conversions are exact byte permutations for every value",
     "Converting a 16- or 32-bit value reverses its bytes, so converting twice gives the value back; reading a float from swapped bytes "
     "yields the float with exactly the reversed bit pattern. The in-place conversion of a register pair swaps the bytes inside each 16-bit "
     "half and touches nothing else.",
     ["inputs"], "all 2^16 / 2^32 input values (every float bit pattern, including NaNs)",
     "Tests check one constant per function.", ["EndianConversion.h"], [("shift/mask formulas", "EndianConversion.h")])
prop("A01", "Geometry arithmetic is exact in every component",
     "Adding a size to a point or rectangle, adding, subtracting, scaling and dividing sizes, and applying a 2x2 matrix to a point give in each "
     "component exactly the mathematical result whenever the component type can hold it (division rounds towards zero); two points are equal "
     "exactly when both coordinates agree, and != is its negation. A non-empty rectangle's bottom-left, top-right and bottom-right points are the pixels "
     "at its corners, moving it keeps its size, and converting it to another component type keeps all four components that type can hold.",
     ["inputs"], "all component values (of magnitude up to 2^29 for int, all values for 8- and 16-bit signed and unsigned bytes)",
     "Tests use one small positive int example per operation; no narrow component types, no negative values, no points that differ in one coordinate, no "
     "conversion between types.", ["graphics/BaseGeometry.h"], [("componentwise operators", "graphics/BaseGeometry.h: Size, Point, Rect"),
                                                             ("corner points", "graphics/BaseGeometry.h: bottomLeft, topRight, bottomRight"),
                                                             ("matrix product", "graphics/BaseGeometry.h: Matrix2x2")])
# ------------------------------------------------------------------ persistent storage
prop("K01", "A stored object is read back unchanged and other entries are unaffected",
     "After storing an object under a name succeeds, looking that name up with the same object size returns exactly the stored bytes until it is "
     "stored again, and every other lookup (other name, or same name with another object size) answers as before. Storing under an existing "
     "name and size replaces the value in place without using more space.",
     ["inputs", "histories"], "all region contents and sizes reached by any history of stores, all names of 1 to 4 non-zero characters, all "
     "stored values, objects of several sizes",
     "Tests store two or three objects; arbitrary earlier histories, names that are prefixes of each other and size collisions are not covered.",
     ["PersistentStorage.h", "PersistentStorage.cpp"], [("record chain walk", "PersistentStorage.h: getIdx"),
                                                       ("append or replace", "PersistentStorage.h: set")])
prop("K02", "A store that does not fit is refused and changes nothing",
     "Storing succeeds whenever the entry already exists or the region still has room for the object plus the fixed record overhead, including "
     "an exact fit; otherwise, or when the name is too long to be recorded, it reports failure and leaves every byte of the region and "
     "every later answer unchanged. Nothing outside the region is ever written.",
     ["inputs", "histories"], "all region sizes (including smaller than one record), all fill levels, all name lengths",
     "Tests fill one region once; exact-fit, one-short and too-long names at every fill level are not reached.",
     ["PersistentStorage.h"], [("room check", "PersistentStorage.h: set"), ("name length check", "PersistentStorage.h: set")])
prop("K03", "Reopening a stored region preserves every entry; initialising empties it",
     "Opening a region left by an earlier storage without initialisation makes every lookup answer and every store behave exactly as before; opening "
     "with initialisation zeroes the region and yields an empty storage.",
     ["inputs", "histories"], "all regions that were initialised and then changed by any history of stores (given by the record-chain invariant), of any size",
     "Tests reopen one region with two entries; regions with an unusable tail or exactly full are not covered.",
     ["PersistentStorage.cpp"], [("scan for the end of the record chain", "PersistentStorage.cpp: constructor")])
prop("K04", "Opening arbitrary memory is safe",
     "Opening a region with arbitrary contents without initialisation, and any lookup or store afterwards, terminates and never reads or writes "
     "outside the region.",
     ["inputs", "histories"], "all byte contents and all sizes of the region, all names",
     "Tests only open regions written by the storage itself or zeroed ones.",
     ["PersistentStorage.h", "PersistentStorage.cpp"], [("bounds of the record chain", "PersistentStorage.cpp: constructor; PersistentStorage.h: getIdx")])
# ------------------------------------------------------------------ graphics
prop("G01", "Writing a pixel changes exactly that pixel",
     "Drawing a pixel inside a frame buffer stores the low bits of the chosen colour at that pixel's position (rows top to bottom, pixels left to "
     "right, most significant bits first, multi-byte colours big-endian) and leaves every other pixel and everything outside the image unchanged. "
     "For one-bit images the pixel is set exactly when the colour is non-zero; selecting a colour keeps its low bits only.",
     ["inputs", "configurations"], "all pixel positions, all 32-bit colours, all image contents, all seven colour depths (several image sizes)",
     "Tests draw monochrome pictures only; other colour depths are never exercised.",
     ["graphics/SimpleFrameBuffer.h"], [("mask and offset computation", "graphics/SimpleFrameBuffer.h: drawPixel"),
                                       ("colour mask", "graphics/SimpleFrameBuffer.h: setColor, colorMask")])
prop("G02", "Clearing paints every pixel, and reported sizes match the image",
     "Clearing a frame buffer gives every pixel the requested colour, the reported width and height are the configured ones, and both image views "
     "designate the same bytes, exactly width x height x depth / 8 of them.",
     ["inputs", "configurations"], "all colours, all earlier contents, all seven colour depths (several image sizes)",
     "Tests clear monochrome buffers to 0 only.", ["graphics/SimpleFrameBuffer.h"],
     [("nested loops over the image", "graphics/SimpleFrameBuffer.h: clear"), ("buffer size", "graphics/SimpleFrameBuffer.h: bufferSize")])
prop("C01", "Drawing never touches a pixel outside the frame buffer",
     "Whatever is drawn on a canvas (pixels, lines, rectangles, circles, characters, strings), wherever it is placed and however the canvas is "
     "rotated, the frame buffer is only ever asked to draw pixels inside its width and height, and drawing terminates.",
     ["inputs", "configurations"], "all frame buffer sizes (1..32767 each way), all rotations, all coordinates and sizes in the range -2^24..2^24, all fonts",
     "Tests draw a few shapes, mostly inside the canvas.", ["graphics/Canvas.h", "graphics/Canvas.cpp"],
     [("visibility test before each pixel", "graphics/Canvas.h: setIfVisible")])
prop("C02", "Rotation maps logical pixels one-to-one onto the frame buffer",
     "For each rotation, drawing a pixel at a logical position lights exactly the frame buffer pixel obtained by turning the picture by that angle, "
     "the logical size has width and height swapped for quarter turns, and a logical pixel is visible exactly when it lies inside the logical size.",
     ["inputs", "configurations"], "all frame buffer sizes, all four rotations, all logical positions",
     "Tests check rotated drawings on one or two canvas sizes.", ["graphics/Canvas.h", "graphics/Canvas.cpp"],
     [("coordinate transforms", "graphics/Canvas.cpp: transformCoords, getTransformMatrix, getShifts"), ("logical size", "graphics/Canvas.h: getSize")])
prop("C03", "Lines and rectangles light exactly the pixels they should",
     "A horizontal or vertical line lights exactly the visible pixels between its end points inclusive; any other line lights, for each step along its "
     "longer axis, at most one pixel, only pixels within half a pixel of the ideal line, and every visible pixel that is strictly nearer than that; both end points are lit when visible, "
     "and a line whose end points are visible has exactly one pixel in every step. A rectangle outline lights exactly the visible "
     "pixels of its border, a filled rectangle exactly the visible pixels of its area, under every rotation.",
     ["inputs", "configurations"], "all end points and rectangles (size at least 1x1) in the coordinate range, all rotations and frame buffer sizes",
     "Tests compare a few drawn shapes with stored pictures.", ["graphics/Canvas.cpp"],
     [("Bresenham loop", "graphics/Canvas.cpp: drawLine"), ("rectangles", "graphics/Canvas.cpp: drawRectangle, drawFilledRectangle")])
prop("C04", "Circles stay within their radius, are symmetric, and close",
     "Drawing a circle of radius r lights only pixels (at distances dx, dy from the centre) with |dx| <= r, |dy| <= r and |dx^2 + dy^2 - r^2| <= |dx| + |dy|, symmetrically about both axes "
     "through the centre, always including the four extreme points and leaving no row or column between them empty; a filled circle lights every visible pixel with "
     "dx^2 + dy^2 + |dx| + |dy| <= r^2 and none with dx^2 + dy^2 > r^2 + |dx| + |dy|. Drawing terminates for every radius.",
     ["inputs", "configurations"], "all centres in the coordinate range and radii 0..2^24, filled or not, all rotations and frame buffer sizes",
     "Tests draw one or two circles.", ["graphics/Canvas.cpp"], [("Bresenham circle", "graphics/Canvas.cpp: drawCircle")])
prop("C05", "A character lights exactly the set bits of its glyph at the right place",
     "Drawing a character at a position lights exactly the visible pixels whose bit in the glyph's bitmap (row by row, most significant bit first, rows not padded) "
     "is set, at position plus glyph offset plus the bit's column and row turned by the canvas rotation, reads only the glyph's bitmap, and returns the glyph's advance width. "
     "Drawing a string draws each character in order, each shifted right by the widths of the preceding ones.",
     ["inputs", "configurations"], "all glyph sizes, bitmaps, offsets, positions, rotations and texts",
     "Tests compare a few texts in one font with stored pictures.", ["graphics/Canvas.h", "graphics/Canvas.cpp"],
     [("glyph loop", "graphics/Canvas.cpp: drawCharAt"), ("string loop", "graphics/Canvas.h: drawStringAt")])
prop("F01", "Character lookup always yields the right glyph or the fallback",
     "Looking up any character in a font yields the glyph of that character when the font contains it and the font's first glyph otherwise; fonts of 7-bit "
     "and of 8-bit encodings (whose unprintable codes between 0x7F and 0x9F are left out of the glyph table) are both handled. The returned bitmap is a part of the font's bitmap data "
     "that starts at the glyph's offset, and nothing outside the font's tables is read.",
     ["inputs", "configurations"], "all 256 character codes, all well-formed fonts starting at any first code and ending at any last code, of any glyph table size",
     "Tests only print ASCII text in the built-in font.", ["graphics/EmbeddedFont.cpp", "graphics/GFXFontsAdapter.h"],
     [("code range and gap handling", "graphics/EmbeddedFont.cpp: getBitmap")])
prop("F02", "Text bounds enclose everything the text draws",
     "The bounds computed for a text have exactly the size of the smallest box enclosing the glyph boxes of its characters placed one after another (extended vertically to the base line), "
     "and drawing the text at the reported corner keeps every lit pixel inside a box of the reported size placed at the origin.",
     ["inputs", "configurations"], "all texts (up to 2^22 characters), all fonts with arbitrary glyph sizes, offsets and widths",
     "Tests do not compute text bounds.", ["graphics/EmbeddedFont.cpp"], [("accumulation over the text", "graphics/EmbeddedFont.cpp: getTextBounds")])
# ------------------------------------------------------------------ converter
prop("T01", "Bits are packed most significant first without loss",
     "The bit packer emits exactly the sequence of bits and bytes written to it, most significant bit first, padded with zero bits only by an explicit flush, and a flush leaves it empty.",
     ["inputs", "histories"], "all histories of bit writes, byte writes and flushes", "The bit packer has no tests.",
     ["gfx-font-converter/BitStream.h"], [("partial byte and bit count", "gfx-font-converter/BitStream.h: operator<<, flush")])
prop("T02", "Encoding conversion handles each character independently",
     "Feeding characters one at a time to the encoding converter yields for each complete character exactly the conversion of that character's own bytes: after a success or an invalid sequence nothing of it "
     "leaks into the next conversion, incomplete multi-byte characters are completed by the following bytes, and its internal buffer is never overrun.",
     ["inputs", "histories"], "all histories of characters and all answers the conversion library may give", "The converter has no tests.",
     ["gfx-font-converter/EncodingConverter.h", "gfx-font-converter/EncodingConverter.cpp"],
     [("pending bytes", "gfx-font-converter/EncodingConverter.cpp: convert, convertRaw")])
# ------------------------------------------------------------------ hardware back ends
prop("H01", "SPI transfers move exactly the requested bytes, in order, once",
     "A synchronous SPI send, receive or exchange of n bytes clocks exactly n bytes on the bus, in order: byte i sent is the caller's byte i and byte i received is stored at the caller's index i, and no memory outside the caller's buffers is accessed. "
     "A failure reported by the platform is reported to the caller and ends the transfer; on Arduino each transfer is one bus transaction.",
     ["inputs", "fault_sequences"], "all lengths 0..65535 and contents, every transfer-size limit, every point of failure", "The hardware back ends are not built by the tests.",
     ["arduino/SpiBus.cpp", "arduino/SpiDevice.cpp", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp"],
     [("chunking", "esp32-esp-idf/SpiBus.cpp: transfer"), ("words plus rest", "arduino/SpiBus.cpp: read, write, readAndWrite")])
prop("H02", "UART receives deliver bytes in order, within size and time limits",
     "Receiving stores the bytes read from the line, in order, in the caller's buffer, never more than its size, and returns their number; receiving up to an end byte stops with the first end byte, and receiving a packet skips bytes before the start byte "
     "and returns them from the start byte through the end byte, the part that arrived if the buffer is full or the time is over first, or nothing if no packet starts. No byte that did not arrive is reported; a call does not give up before its time limit "
     "nor start another read after it, also when the millisecond counter wraps around; and sending passes exactly the caller's bytes and reports how many the platform took. (On Arduino the bytes after the first are read by the stream with that limit per byte, "
     "and a limit of 0 means no limit of its own; on ESP32 a packet receive with limit 0 only takes what is there.)",
     ["inputs", "schedules", "fault_sequences"], "all buffer sizes, byte streams, arrival times and time limits, all values of the wrapping millisecond clock", "The hardware back ends are not built by the tests.",
     ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"],
     [("time comparison", "*/PacketUart.cpp"), ("receive loops", "*/PacketUart.cpp: Receive, ReceiveUntil, ReceiveBetween")])
prop("H03", "I2C, GPIO and chip-select calls pass exactly what was asked and report failures",
     "I2C sends and receives address the configured device with exactly the caller's bytes and succeed only if the platform confirms all of them; a send-then-receive receives only after a successful send. "
     "Digital pins drive and report the requested level of the configured pin, initialise with the requested direction and pull, and a chip selector holds its pin low exactly during its lifetime.",
     ["inputs", "fault_sequences"], "all arguments and all platform answers", "The hardware back ends are not built by the tests.",
     ["I2CDevice.h", "GpioDigitalPin.h", "arduino/I2CDevice.cpp", "esp32-esp-idf/I2CDevice.cpp", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp"],
     [("result checks", "*/I2CDevice.cpp"), ("pin configuration", "*/GpioDigitalPin.cpp: init")])
prop("H04", "Hardware resources acquired are released, also on failure",
     "On ESP32, an initialised SPI bus releases its device and then its bus exactly once, on request or on destruction, and reports success only if both worked, and a failed initialisation leaves nothing allocated except what the platform itself refused to release, which a later release retries; "
     "an analog read releases the converter it acquired on every path, including failures.",
     ["histories", "fault_sequences"], "all histories of init, transfer and release, and every platform failure", "The hardware back ends are not built by the tests.",
     ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/AnalogPin.cpp", "esp32-esp-idf/I2CBus.cpp"],
     [("release order", "esp32-esp-idf/SpiBus.cpp: release, ~SpiBus"), ("unit release", "esp32-esp-idf/AnalogPin.cpp: singleReadADC")])
prop("H05", "Delays and sleeps last at least as long as requested, for every duration",
     "A millisecond or microsecond delay, and a light or deep sleep, waits for at least the requested duration (light sleep: in whole ticks of the millisecond clock) for every 32-bit value, also when the millisecond counter wraps around during the wait, "
     "and the tick functions report the platform clock in the documented unit.",
     ["inputs", "schedules"], "all durations, all clock values, all advances of the clock between two readings", "The hardware back ends are not built by the tests.",
     ["arduino/Delays.cpp", "esp32-esp-idf/Delays.cpp", "esp32-esp-idf/SleepFunctions.h"],
     [("wait loops", "esp32-esp-idf/Delays.cpp: delayMicroseconds; esp32-esp-idf/SleepFunctions.h: ligntSleep")])
prop("H06", "UARTs open exactly as requested; analog reads measure the configured pin",
     "On ESP32, opening a UART whose driver is already installed leaves it alone and succeeds; otherwise the requested port is configured, wired and its driver installed exactly once each, with the requested baud rate, data bits, parity, stop bits and flow control, "
     "the requested receive and transmit pins (RTS and CTS left unchanged) and a receive buffer the driver accepts, and success is reported only if the platform confirmed every step. "
     "An analog read takes one reading of the configured pin (on ESP32: of the converter channel wired to that pin) and returns it, or -1 on ESP32 if the pin has no converter or the platform reports a failure.",
     ["inputs", "fault_sequences"], "all ports, pins, baud rates and documented settings, every pin number, every platform failure", "The hardware back ends are not built by the tests.",
     ["esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/AnalogPin.cpp", "arduino/AnalogPin.cpp"],
     [("port configuration", "esp32-esp-idf/SimpleUartDevice.cpp: init"), ("pin to channel", "esp32-esp-idf/AnalogPin.cpp: digitalPinToAnalogChannel, singleRead"), ("reading", "arduino/AnalogPin.cpp: singleRead")])
prop("X01", "A generated font file describes exactly the rendered glyphs",
     "The font converter writes, for every character of the selected encoding, exactly the pixels rendered by the font engine, with offsets that address each glyph's bits in the combined bitmap, in both output formats.",
     ["inputs", "configurations"], "all fonts, sizes, encodings and output formats", "The converter has no tests.",
     ["gfx-font-converter/main.cpp"], [("glyph table construction", "gfx-font-converter/main.cpp: main")], claimed=False,
     na="the guarantee lives in main(), which goes through iostreams, filesystem, vectors, exceptions and the FreeType library: out of reach of contracts on LLVM IR without "
        "assuming contracts for nearly everything it states; its hand-written pieces (bit packing T01, encoding conversion T02, table text X02, text formatting B01-B06) are under contract separately")
prop("X02", "The font converter's tables list every byte and glyph completely",
     "Whatever sequence of bytes is written to the bitmap table, the text is an array named after the font whose initialisers are exactly those bytes as 0xHH, in order, separated by exactly one comma each and closed at the end. "
     "Whatever glyph descriptors are written for an encoding's characters (0x20-0x7E, and 0xA0-0xFF unless the encoding is ASCII), the glyph table has one line each, in order, with the offset at which its bits start in the combined bitmap "
     "(the sum of the preceding sizes), its own size, advance and shift, and its code and character as comment; the last one closes the table. No text is cut by the internal buffer, lost or written twice.",
     ["inputs", "histories"], "all sequences of bytes and of glyph descriptors, all font names of at most 255 characters", "The converter has no tests.",
     ["gfx-font-converter/main.cpp"], [("bitmap table", "gfx-font-converter/main.cpp: HexStringStream"), ("glyph table and running offset", "gfx-font-converter/main.cpp: TextGlyphStream"),
      ("buffering", "gfx-font-converter/main.cpp: BufferedStreamBase")])



def main():
    done = json.load(open(os.path.join(V, "specs", "index.json")))
    have = {i for l in done.values() for i in l}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    checks, na = [], []
    for p in P:
        if p["id"] in have:
            checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check %s --thorough" % p["id"],
                           "technique": "contract-based deductive verification of the clang IR of the real code (irv VC generator, z3/cvc5)",
                           "level": "proof", "level_note": STD + p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "contracts for this component are not built yet"})
    json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo are needed: harness units in /verif/harness include /repo's sources unchanged."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
