NA = []
prop("C01", "A created header card is a valid 80-character record that reads back",
 "Every header card the library creates from a keyword, a value and a comment is exactly 80 characters long, keeps the keyword in the first eight columns and the comment after the value, and gives back the same keyword, value and comment. A keyword, value or comment that does not fit, or is not allowed, is refused with an error instead of producing a malformed card.",
 ["inputs"], "all keywords, values (integer, logical, string, complex, commentary) and comments within the stated lengths",
 "Tests create a dozen fixed cards; the guarantee concerns every keyword/value/comment, including the exact length limits.",
 ["io/card.hpp", "io/default_card_policy.hpp"], [("create_card overloads / is_card_valid", "io/card.hpp"), ("create_card, parse, validation", "io/default_card_policy.hpp")])
prop("C02", "Parsing a raw header card yields its fields or an error",
 "For any raw card text, parsing either reports an error or yields the keyword, value and comment that the FITS fixed columns define, and reading the value as a type gives exactly the value written there or an error. No card content makes the parser read outside of the card or crash.",
 ["inputs"], "all byte values in the keyword and indicator columns, all texts of the value field within the bound, all raw lengths",
 "Tests parse a handful of well formed cards; malformed and borderline cards are not sampled.",
 ["io/card.hpp", "io/default_card_policy.hpp"], [("create_card(raw) / keyword / value<T>", "io/card.hpp"), ("get_keyword, get_value, parse_to", "io/default_card_policy.hpp")])
prop("C03", "A card always shows its latest value, whatever was done before",
 "After any sequence of creating, changing, reading and copying cards, reading a card returns the most recently stored value in any type it can be read as, the text of the card agrees with it and stays 80 characters long, and copies do not influence each other. A change that is refused leaves the card as it was.",
 ["histories"], "all operation histories up to the bound, with symbolic values",
 "Tests perform one operation per card; cached values and copies only matter over histories.",
 ["io/card.hpp"], [("cached value", "io/card.hpp"), ("set_value", "io/card.hpp")])
prop("C04", "Reading a header reports the file's cards, pixel type, axes and data size",
 "For every header unit, reading it yields exactly its cards in order up to the END card, the declared pixel type, the number and lengths of axes and their product, and answers keyword queries with the value of that keyword or an error. A header that lacks a mandatory keyword or ends before END is reported as an error, and reading always terminates; questions never change the header.",
 ["inputs", "histories"], "all axis lengths, pixel type texts, card orders, missing cards and truncation points within the bounds; re-reading into the same object",
 "Tests read a few sample files with well formed headers.",
 ["io/header.hpp"], [("read_header, bitpix, naxis, data_size, value_of, contains_keyword", "io/header.hpp")])
prop("C05", "Written headers are whole 2880-byte blocks that read back identically",
 "Writing any header produces its cards in order followed by the END card and blanks up to a multiple of 2880 bytes, with no superfluous block. Reading the written bytes gives an equal header, and a header written after another one starts right behind it.",
 ["inputs"], "all card counts around block boundaries up to three blocks, symbolic card contents, one or two headers",
 "Tests write one or two fixed headers that do not touch block boundaries.",
 ["io/header.hpp", "io/fits_stream.hpp"], [("write_header", "io/header.hpp"), ("find_unit_end, set_unit_end, write", "io/fits_stream.hpp")])
prop("C06", "The file layer reads, positions and writes exactly the requested bytes",
 "For any file and any sequence of reads and repositionings, the bytes returned are those stored at the current position, the position advances by what was read, the end of the file is reported exactly when it is reached, and the end of the current block is the next multiple of 2880 (or the position itself if it is one). Written bytes appear at the position they were written to and nothing else changes.",
 ["inputs", "histories"], "all byte contents, all operation histories up to the bound, all positions",
 "Tests read a fixed file sequentially.",
 ["io/fits_stream.hpp"], [("read, get, set_reading_pos, find_unit_end, write", "io/fits_stream.hpp")])
prop("C07", "Binary field values convert to and from big-endian bytes without loss",
 "For every supported field type and every value, converting to bytes gives the FITS big-endian layout and converting the bytes back gives the same bit pattern, for single elements and for arrays with each element at its own place. The number of bytes is exactly the element size times the number of elements.",
 ["inputs"], "all bit patterns of all supported types, all array lengths within the bound",
 "Tests convert a few sample values.",
 ["io/binary_data_converter.hpp", "io/string_conversion_utility.hpp"], [("serialize / deserialize_to", "io/binary_data_converter.hpp"), ("element_to_big_endian", "io/string_conversion_utility.hpp")])
prop("C08", "Field formats give the field width, element count and type FITS defines",
 "For every binary or ASCII table field format, the reported type letter, number of elements and width in bytes or characters are those the FITS standard defines, with an absent repeat count meaning one. A format with an unknown type is refused.",
 ["inputs"], "all type letters and all repeat counts/widths up to three digits, with surrounding quotes and blanks",
 "Tests look at a few formats only.",
 ["io/binary_table.hpp", "io/ascii_table.hpp"], [("column_size, element_count, get_type, type_size", "io/binary_table.hpp"), ("column_size, element_count, get_type", "io/ascii_table.hpp")])
prop("C09", "Binary tables give back every field and rewrite to the same bytes",
 "For every binary table, each column read under its name gives for every row exactly the value stored in that field, changing a field changes only that field, and writing the table reproduces the data bytes filled with zeros to a whole block. Tables whose fields do not match the row length or the data, or that cannot be written faithfully, are reported, and copies of a table are independent.",
 ["inputs", "histories"], "all field bytes, field type combinations and row counts within the bounds",
 "Tests read a few sample tables and never compare every byte after rewriting or editing.",
 ["io/binary_table.hpp", "io/table_extension.hpp", "io/column.hpp"], [("set_binary_table_info, populate_column_data, write_to, get_column", "io/binary_table.hpp"), ("make_column_view, metadata", "io/table_extension.hpp")])
prop("C10", "ASCII tables give back every field and rewrite to the same characters",
 "For every ASCII table, each column read under its name gives for every row the text or number in the declared character columns, changing a field changes only its characters and keeps the field width, and writing the table puts every field at its declared columns and fills with blanks to a whole block. Fields outside of the row or the data, and values that do not fit, are reported.",
 ["inputs", "histories"], "all field characters, column placements and row counts within the bounds, all updates",
 "Tests read a few sample tables with fields in order and without gaps.",
 ["io/ascii_table.hpp", "io/string_conversion_utility.hpp", "io/column.hpp"], [("set_ascii_table_info, write_to, get_column", "io/ascii_table.hpp"), ("ascii_converter", "io/string_conversion_utility.hpp")])
prop("C11", "A column view is a live window on its table column",
 "After any sequence of reading, writing, iterating and re-taking column views, every view shows the most recently written value of each row, writes reach exactly the addressed field of the table, and no other row or column changes.",
 ["histories"], "all operation histories up to the bound with symbolic values",
 "Tests read columns and do single updates; caching in views only matters over histories.",
 ["io/column.hpp", "io/column_data.hpp", "io/table_extension.hpp"], [("column_view, proxy, iterator, cache", "io/column.hpp")])
prop("C12", "Image pixels are read, addressed and written exactly",
 "For every image of each supported pixel type, the pixels obtained are the big-endian values of the data bytes in file order, the pixel at a position is the one FITS stores there, and writing the image reproduces the data bytes filled with zeros to a whole block. Asking for the pixels as another pixel type is reported.",
 ["inputs"], "all bit patterns of the pixels, all five pixel types, sizes within the bounds",
 "Tests read one image per type and compare a few pixels.",
 ["io/image.hpp", "io/primary_hdu.hpp", "io/image_extension.hpp", "io/bitpix.hpp"], [("read_image, write_image, operator()", "io/image.hpp"), ("get_data, write_to", "io/primary_hdu.hpp")])
prop("C13", "Image statistics equal their mathematical definitions",
 "For every image the reported maximum, minimum, mean, median and standard deviation are those of its pixels as defined mathematically (the median is the pixel in the middle of the sorted pixels, the upper one of the two for an even number; the standard deviation is the one with n-1), in any pixel order, and computing them does not change the image.",
 ["inputs"], "all pixel values of images up to the bound, all orders",
 "Tests check one fixed image per type.",
 ["io/image.hpp"], [("max, min, mean, median, std_dev", "io/image.hpp")], "real")
prop("C14", "Opening and rewriting a FITS file finds and preserves every unit",
 "For every FITS file, opening it finds all units in order with their headers and data at the right places (in both reading modes), by index and by name, and rewriting an opened file reproduces it byte for byte apart from edits made through it. A file that is missing, ends inside a unit or cannot be written is reported, reading always terminates, and a reader given another file shows only that file.",
 ["inputs", "histories", "fault_sequences"], "all data bytes, unit orders, block boundary positions, truncation points within the bounds",
 "Tests open a handful of sample files and check counts.",
 ["io/fits_reader.hpp", "io/fits.hpp", "io/default_hdus.hpp", "io/fits_stream.hpp"], [("read_entire_hdus, read_only_headers, write_to, control block", "io/fits_reader.hpp"), ("variant dispatch", "io/default_hdus.hpp")])
prop("C15", "Position objects return exactly the components and units they were given",
 "For all component values and any mix of units, a Cartesian, spherical or spherical equatorial position built from, set to or copied from components returns those components (alone or together) in its own units, setting one component leaves the others as they were, and copies are independent. Converting a position to other units of the same kind describes the same components.",
 ["inputs", "histories"], "all component values, unit combinations of length and angle units, and orders of setting within the bounds",
 "Tests set a few numbers in one or two unit combinations.",
 ["coordinate/rep/cartesian_representation.hpp", "coordinate/rep/spherical_representation.hpp", "coordinate/rep/spherical_equatorial_representation.hpp", "coordinate/rep/base_representation.hpp"],
 [("constructors, get_*, set_*, make_*", "coordinate/rep/spherical_representation.hpp"), ("constructors, get_*, set_*, make_*", "coordinate/rep/cartesian_representation.hpp")], "real")
prop("C16", "Converting a position between representations keeps the place",
 "Converting a position between Cartesian, spherical and spherical equatorial representation, by constructor or make function in any units, or by to_representation in equal units, gives the same point of space: the converted object's coordinates, read through its accessors (first angle measured in the xy plane from the x axis; second angle from the z axis for spherical, from the xy plane for equatorial), describe the original place. Converting there and back therefore returns to the same place in every octant.",
 ["inputs"], "all positions within the bounds, all octants, all ordered pairs of representations, mixed units",
 "Tests convert a few sample points, mostly of the first octant.",
 ["coordinate/rep/cartesian_representation.hpp", "coordinate/rep/spherical_representation.hpp", "coordinate/rep/spherical_equatorial_representation.hpp", "coordinate/rep/base_representation.hpp"],
 [("converting constructors and make_* functions", "coordinate/rep/spherical_representation.hpp"), ("to_representation", "coordinate/rep/base_representation.hpp")], "real")
prop("C17", "Vector arithmetic on positions equals vector algebra in space",
 "For any two positions in any representations and units, sum, mean, dot and cross product are those of the vectors from the origin to the two places; the magnitude is the distance from the origin, and the unit vector points the same way and is one unit (of the first length component) long. The result has the representation and units of the first operand.",
 ["inputs"], "all operand values within the bounds and all pairs of the three representations, equal and mixed units",
 "Tests compute a few sample vectors per operation.",
 ["coordinate/arithmetic.hpp", "coordinate/rep/cartesian_representation.hpp", "coordinate/rep/spherical_representation.hpp", "coordinate/rep/spherical_equatorial_representation.hpp"],
 [("cross, dot, magnitude, unit_vector, sum, mean", "coordinate/arithmetic.hpp"), ("operator+", "coordinate/rep/spherical_representation.hpp")], "real")
prop("C18", "Differentials keep the components they were given",
 "A Cartesian, spherical, spherical equatorial or coslat differential made from any three components, in equal or different units, by constructor, setter or make function, returns exactly these components (converted to its own units) from its accessors, one by one and as a tuple; setting one component leaves the others alone, and copies describe the same motion.",
 ["inputs"], "all triples of components within the bounds, all four differentials, equal and mixed units",
 "Tests make each differential from one or two sample triples.",
 ["coordinate/diff/cartesian_differential.hpp", "coordinate/diff/spherical_differential.hpp", "coordinate/diff/spherical_equatorial_differential.hpp", "coordinate/diff/spherical_coslat_differential.hpp", "coordinate/diff/base_differential.hpp"],
 [("constructors, get_*/set_*", "coordinate/diff/spherical_differential.hpp"), ("constructors, get_*/set_*", "coordinate/diff/spherical_coslat_differential.hpp")], "real")
prop("C19", "Converting, adding and scaling differentials keeps the motion",
 "Converting a differential between Cartesian, spherical, spherical equatorial and coslat form (constructor, make function, or to_differential between the first three in equal units) describes the same velocity vector; a coslat differential stands for the spherical one with its second angle divided by cos(first angle). The sum of any two differentials is the vector sum in the form of the first, the product with a time is the velocity times that time (also negative), and for the first three forms the magnitude is the speed and the unit vector has its direction.",
 ["inputs"], "all components within the bounds, all ordered pairs of the four differentials, equal and mixed units",
 "Tests convert and add a few sample differentials.",
 ["coordinate/diff/cartesian_differential.hpp", "coordinate/diff/spherical_differential.hpp", "coordinate/diff/spherical_equatorial_differential.hpp", "coordinate/diff/spherical_coslat_differential.hpp", "coordinate/diff/base_differential.hpp"],
 [("make_*_differential, operator+, operator*", "coordinate/diff/spherical_differential.hpp"), ("make_*_differential, operator+, operator*", "coordinate/diff/spherical_coslat_differential.hpp"), ("to_differential, magnitude, unit_vector", "coordinate/diff/base_differential.hpp")], "real")
prop("C20", "Coordinates of the sky keep the two angles they were given",
 "A horizon, equatorial (hour angle or right ascension), ecliptic or galactic coordinate made from any two angles, in equal or different units, by constructor, setter or make function, returns exactly these angles (converted to its own units) from its accessors: the first is never exchanged with the second, setting one leaves the other alone, and copies describe the same direction.",
 ["inputs"], "all pairs of angles within the bounds, degree and radian, all five coordinate systems",
 "Tests make each coordinate from one or two sample pairs, mostly in one unit.",
 ["coordinate/coord_sys/horizon_coord.hpp", "coordinate/coord_sys/equatorial_ha_coord.hpp", "coordinate/coord_sys/equatorial_ra_coord.hpp", "coordinate/coord_sys/ecliptic_coord.hpp", "coordinate/coord_sys/galactic_coord.hpp", "coordinate/coord_sys/coord_sys.hpp"],
 [("constructors, get_*/set_*, make_*_coord", "coordinate/coord_sys/galactic_coord.hpp"), ("coord_sys", "coordinate/coord_sys/coord_sys.hpp")], "real")
prop("C21", "Rotations between sky coordinate systems are right and invertible",
 "column_vector turns any two angles into the unit vector of that direction and extract_coordinates finds the angles again (also when rounding made the vector slightly too long). The rotation matrices mean what their names say for every latitude, sidereal time and obliquity: hour angle = sidereal time - right ascension with declination unchanged; altitude and azimuth follow the standard formulas; the ecliptic matrices rotate by the obliquity about the x axis; the two galactic matrices put the galactic pole and centre at their B1950 places. Each pair of matrices is inverse, so there and back is the same direction. The obliquity of the ecliptic follows its polynomial for every date.",
 ["inputs"], "all directions, observer latitudes, sidereal times, obliquities and dates within the bounds",
 "Tests rotate a handful of directions and never all the way back.",
 ["coordinate/utility/utility.hpp"],
 [("column_vector, extract_coordinates, rotation matrices, obliquity_of_ecliptic", "coordinate/utility/utility.hpp")], "real")
prop("C22", "Reference frames keep position, motion and parameters as given",
 "An icrs, cirs, geocentric, heliocentric, galactic, supergalactic or alt_az frame (and a sky_point holding it) made from any position and motion, by constructor or setter and in equal or different units, returns exactly these components from its accessors, one by one, as tuple, as representation or differential, and as proper motion and radial velocity; setting one leaves the others alone. Made from any other representation or differential it describes the same place and motion. Observation time, equinox, location, pressure, temperature and humidity are returned as they were set, and copies carry all of them.",
 ["inputs"], "all components within the bounds, all seven frames, equal and mixed units, all source representations and differentials",
 "There are no tests of the reference frames.",
 ["coordinate/ref_frame/base_frame.hpp", "coordinate/ref_frame/base_equatorial_frame.hpp", "coordinate/ref_frame/base_ecliptic_frame.hpp", "coordinate/ref_frame/icrs.hpp", "coordinate/ref_frame/cirs.hpp", "coordinate/coord_sys/alt_az.hpp", "coordinate/coord_sys/galactic.hpp", "coordinate/coord_sys/supergalactic.hpp", "coordinate/coord_sys/geocentric.hpp", "coordinate/coord_sys/heliocentric.hpp", "coordinate/sky_point.hpp"],
 [("constructors, get_*/set_*", "coordinate/coord_sys/alt_az.hpp"), ("constructors, get_*/set_*", "coordinate/ref_frame/base_equatorial_frame.hpp"), ("sky_point", "coordinate/sky_point.hpp")], "real")
prop("C23", "Separation and position angle of two points of the sky are right",
 "The angular separation of any two points of a frame is the angle between the vectors to them (as the frame's representation places them): between 0 and pi, the same in either order and for every distance, 0 for a point and itself, and the same for frames and sky points. The position angle of a second point seen from a first has the standard tangent: east part sin(lon2-lon1) cos(lat2), north part sin(lat2) cos(lat1) - cos(lat2) sin(lat1) cos(lon2-lon1), in the right quadrant. is_equivalent_system is true for the same frame type only.",
 ["inputs"], "all pairs of points within the bounds, all seven frames, degree and radian",
 "There are no tests of separation or position angle.",
 ["coordinate/ref_frame/base_frame.hpp", "coordinate/sky_point.hpp", "coordinate/arithmetic.hpp"],
 [("get_angular_separation", "coordinate/ref_frame/base_frame.hpp"), ("separation, positional_angle, is_equivalent_system", "coordinate/sky_point.hpp")], "real")
prop("C24", "Julian date and sidereal time are right for every day and instant",
 "For every date from 1400 to 9999, julian_date is the Julian date of 0h of that day: Gregorian from 15 October 1582 on, Julian calendar up to 4 October 1582, one more than the day before, and independent of the time of day. GST is the sidereal time polynomial at that date plus 1.002737909 times the universal time (to the microsecond), and LST adds the longitude divided by 15 for EAST and subtracts it for WEST; both are brought into the range 0 <= t < 24 by whole days only.",
 ["inputs"], "all dates, all microseconds of the day, all longitudes within the bounds, both directions",
 "Tests compute a few sample instants.",
 ["time/time_conversions.hpp"],
 [("julian_date, GST, LST", "time/time_conversions.hpp")], "real")
prop("C25", "Decimal hours and hours, minutes, seconds stay in agreement",
 "A decimal_hour made from a number returns that number, and its hours, minutes and seconds add up to it, have its sign, and the minutes and seconds are below 60 in size. One made from hours, minutes and seconds has the value hours + minutes/60 + seconds/3600 and returns well-formed parts as they were given; the two ways of making the same time agree.",
 ["inputs"], "all numbers and all triples within the bounds, also negative ones and parts outside of their range",
 "Tests check two sample values.",
 ["time/parser.hpp"],
 [("decimal_hour", "time/parser.hpp")], "real")
prop("C26", "Astronomical units of length convert by their defined factors",
 "Converting a length between metre, centimetre, astronomical unit, light second, minute, hour, day and year, and parsec, multiplies it by the ratio of the two units' defined sizes; conversion is linear, and there and back gives the same length. Each named constant (parsec, light_years, ...) stands for exactly one of the unit of its name.",
 ["inputs"], "all lengths within the bounds and all ordered pairs of the nine units",
 "Tests convert sample values of some of the pairs.",
 ["units/length.hpp"],
 [("unit typedefs and constants", "units/length.hpp")], "real")
prop("C27", "The description of a table column is what the header says about it",
 "For every binary or ASCII table, the description of each column (index, name, format, start, unit, scale, zero, display format, dimension, number of elements) is exactly what the keywords with that column's number say, in whatever order and number they stand in the header; keywords that are absent give the FITS defaults (scale 1, zero 0, empty text) and never those of another column. Mandatory keywords that are absent are reported. A column is found by its name (the first of equal names), its view and copies of the table carry the same description, and changing one description changes no other.",
 ["inputs", "histories"], "all texts and decimals of the keywords within the bounds, presence and order of every keyword, column numbers up to 12",
 "Tests look at the names and formats of two sample tables.",
 ["io/table_extension.hpp", "io/binary_table.hpp", "io/ascii_table.hpp", "io/column.hpp", "io/column_data.hpp"],
 [("populate_column_data", "io/binary_table.hpp"), ("populate_column_data", "io/ascii_table.hpp"), ("get_column_metadata", "io/table_extension.hpp")])
prop("C28", "Real numbers in cards and text fields keep their value",
 "Every real or complex number (float or double) stored in a card is read back as exactly the same number, from the card and from its text alone; the text uses the exponent letter E, the card stays 80 characters long and keeps keyword and comment. A decimal number in a card, a header or an ASCII table field, with or without sign, fraction, and exponent letter E or D, reads as the number nearest to the one it denotes; text that is no number is reported. Updating a real number of an ASCII column changes its own field only.",
 ["inputs", "histories"], "all finite numbers for writing; all decimal texts within the bounds for reading",
 "Tests read and write a handful of short decimals.",
 ["io/default_card_policy.hpp", "io/card.hpp", "io/string_conversion_utility.hpp", "io/ascii_table.hpp"],
 [("serialize_to, parse_to", "io/default_card_policy.hpp"), ("deserialize_to, serialize", "io/string_conversion_utility.hpp")])
prop("C29", "Printing shows every component with its own unit, in a fixed text",
 "Printing a cartesian, spherical or spherical equatorial representation writes its name and its components in order, in round brackets and separated by commas ('Cartesian Representation ( 1 m , 2 m , 3 m )'); printing a horizon, galactic, ecliptic or equatorial coordinate writes its name and both angles with their names ('Horizon Coordinate (Altitude: 1 rad, Azimuth: 2 deg)'); printing a decimal_hour writes 'Hours: ' and its hours, minutes and seconds as get_hours, get_minutes and get_seconds return them ('Hours: 12h 30m 15.000000s '). Every component is shown with the value and the unit the object holds, also when the components have different units. Printing returns the stream it was given, leaves its settings alone, and several objects can be printed one after another.",
 ["inputs"], "all components within the bounds, equal and mixed units, one or two objects in a row",
 "There are no tests of printing.",
 ["coordinate/io/io.hpp", "coordinate/coord_sys/horizon_coord.hpp", "coordinate/coord_sys/galactic_coord.hpp", "coordinate/coord_sys/ecliptic_coord.hpp", "coordinate/coord_sys/equatorial_ra_coord.hpp", "coordinate/coord_sys/equatorial_ha_coord.hpp", "time/parser.hpp"],
 [("operator<<", "coordinate/io/io.hpp"), ("operator<<", "coordinate/coord_sys/horizon_coord.hpp"), ("operator<<", "time/parser.hpp")], "real")
