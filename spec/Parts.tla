------------------------------- MODULE Parts --------------------------------
(* C36: the part of a FITS file that a labelled object is.  Labels say where *)
(* it is by record or byte; for some data sets they are known to say so      *)
(* wrongly, and the object is known by the place or name of its HDU instead. *)
(* Objects that are known not to be there, or whose HDU is missing or empty, *)
(* are no other HDU's data.                                                  *)
EXTENDS Irregular, SequencesExt

\* HDUs are [name, empty, head, size, ...]: so many records of header
\* and, if there are any, of data
HeaderRecord(hdus, i) ==
  FoldLeft(LAMBDA acc, h : acc + h.head + (IF h.empty THEN 0 ELSE h.size), 0,
           SubSeq(hdus, 1, i - 1))
DataRecord(hdus, i) == HeaderRecord(hdus, i) + hdus[i].head
HeaderName(name) == Has(name, "HEADER")

\* an object's part: "none" if there is none
Nothing == [hdu |-> 0, part |-> "none"]
Part(hdus, i, name) ==
  IF i \notin 1..Len(hdus) THEN Nothing
  ELSE IF HeaderName(name) THEN [hdu |-> i, part |-> "header"]
  ELSE IF hdus[i].empty THEN [hdu |-> i, part |-> "empty"]
  ELSE [hdu |-> i, part |-> "data"]
\* by the HDU's name, which may be spelled in any case
ByName(hdus, names, name) ==
  LET firsts == {i \in 1..Len(hdus) : hdus[i].name = names[1]}
      others == IF Len(names) = 1 THEN {}
                ELSE {i \in 1..Len(hdus) : hdus[i].name = names[2]}
      found == IF firsts # {} THEN firsts ELSE others
  IN  IF found = {} THEN Nothing
      ELSE Part(hdus, CHOOSE i \in found : \A j \in found : i <= j, name)
\* by the label: at is [unit, n] with n counted from 1
ByLabel(hdus, at, name) ==
  LET record == at.n - 1
      hit(i) == record = (IF HeaderName(name) THEN HeaderRecord(hdus, i)
                          ELSE DataRecord(hdus, i))
                \* an empty HDU has no data before those of the next
      all == {i \in 1..Len(hdus) : hit(i)}
  IN  IF all = {} THEN Nothing
      ELSE Part(hdus, CHOOSE i \in all : TRUE, name)

\* ---------------------------------------------------------- what is known
UvsRdr == <<"CALIBRATED_SPECTRAL", "ACQUISITION_LIST", "CALIBRATED_PHOTON_LIST",
  "ANCILLARY_DATA", "CALIBRATED_ANALOG_COUNT_RATE",
  "CALIBRATED_DIGITAL_COUNT_RATE", "HOUSEKEEPING", "WAVELENGTH_LOOKUP",
  "MASK_INFORMATION">>
UvsRdrKinds == <<"IMAGE", "TABLE", "TABLE", "TABLE", "TABLE", "TABLE", "TABLE",
  "IMAGE", "TABLE">>
UvsEdr == <<"SPECTRAL_VS_SPATIAL", "SPATIAL_VS_TIME", "FRAME_LIST",
  "SCAN_MIRROR_POSITIONS", "RAW_FRAME", "ANALOG_COUNT_RATE",
  "DIGITAL_COUNT_RATE", "PULSE_HEIGHT_DISTRIBUTION_LA",
  "PULSE_HEIGHT_DISTRIBUTION_STELLAR", "PULSE_HEIGHT_DISTRIBUTION_STIM",
  "HOUSEKEEPING", "PARAMETER_LIST">>
UvsEdrKinds == <<"IMAGE", "QUBE", "TABLE", "TABLE", "TABLE", "TABLE", "TABLE",
  "QUBE", "QUBE", "QUBE", "TABLE", "TABLE">>
Ordered(names, kinds, name) ==
  LET is(i) == name \in {names[i] \o "_HEADER", names[i] \o "_" \o kinds[i]} IN
  IF \E i \in 1..Len(names) : is(i)
  THEN CHOOSE i \in 1..Len(names) : is(i) ELSE 0
\* words in objects' names, the first that is there counts, and HDUs' names
LampRdr == <<
  <<"ACQUISITION_LIST", <<"Acquisition List">> >>,
  <<"CAL_PIXELLIST_DATA", <<"Calibrated Pixel List Mode Data">> >>,
  <<"ANCILLARY_DATA", <<"Ancillary Data">> >>,
  <<"CAL_HISTOGRAM_", <<"Calibrated Histogram Mode Data">> >>,
  <<"CAL_CALCULATED_COUNTRATE", <<"Calculated Countrate", "Reduced Count Rate">> >>,
  <<"LTS_DATA", <<"LTS Data">> >>,
  <<"HOUSEKEEPING", <<"Housekeeping Data">> >>,
  <<"WAVELENGTH_LOOKUP", <<"Wavelength Lookup Image">> >> >>
LampEdr == <<
  <<"ACQUISITION_LIST_TABLE", <<"Acquisition List">> >>,
  <<"FRAME_DATA_TABLE", <<"Raw Frame Data">> >>,
  <<"CALCULATED_COUNTRATE_TABLE", <<"Calculated Countrate">> >>,
  <<"LTS_DATA_TABLE", <<"LTS Data">> >>,
  <<"HOUSEKEEPING_TABLE", <<"Housekeeping Data">> >> >>
Word(list, name) ==
  LET hits == {i \in 1..Len(list) : Has(name, list[i][1])} IN
  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

Knows(id, o) == \E i \in 1..Len(Elementary) :
                  Elementary[i].id = id /\ Covers(Elementary[i], o)
\* the part of a file that object o is
Where(o, hdus, at) ==
  CASE Knows("dawn-fits", o) -> Nothing
    [] Knows("rings-fits", o) \/ Knows("caspir-fits", o) -> Part(hdus, 1, o.name)
    [] Knows("mdis-fits", o) -> IF o.name \in {"IMAGE", "HEADER"}
                                THEN Part(hdus, 1, o.name) ELSE Nothing
    [] Knows("hriv-fits", o) -> ByName(hdus, <<"MASK">>, o.name)
    [] Knows("vmc-fits", o) -> Part(hdus, 2, "IMAGE")
    [] Knows("uvs-rdr-fits", o) -> Part(hdus, Ordered(UvsRdr, UvsRdrKinds, o.name), o.name)
    [] Knows("uvs-edr-fits", o) -> Part(hdus, Ordered(UvsEdr, UvsEdrKinds, o.name), o.name)
    [] Knows("lamp-rdr-fits", o) /\ Word(LampRdr, o.name) > 0 ->
         ByName(hdus, LampRdr[Word(LampRdr, o.name)][2], o.name)
    \* these are where the labels say, if they are there
    [] Knows("lamp-edr-fits", o) /\ o.name \in {LampEdr[i][1] : i \in 1..Len(LampEdr)} ->
         LET i == CHOOSE i \in 1..Len(LampEdr) : LampEdr[i][1] = o.name
             own == ByName(hdus, LampEdr[i][2], o.name)
         IN  IF own.part = "data" THEN ByLabel(hdus, at, o.name) ELSE Nothing
    [] OTHER -> ByLabel(hdus, at, o.name)
=============================================================================
