exec(open("/verif/tools/bugs/b1.py").read().split("BUGS = [")[0])
FITS = HEAD + '''
from astropy.io import fits


def fitsfile(names, empty=()):
    """HDUs by name, with their index as the only content"""
    hdus = []
    for i, name in enumerate(names):
        content = None if i in empty else np.full((2, 3), i, "i2")
        hdus.append((fits.ImageHDU if i else fits.PrimaryHDU)(content))
        if name:
            hdus[-1].name = name
        hdus[-1].header["TAG"] = i
    fits.HDUList(hdus).writeto(f"{d}/a.fits", overwrite=True)


def labelled(ids, name, record):
    inner = "BYTES = 2880" if "HEADER" in name else (
        "LINES = 2\\\\n LINE_SAMPLES = 3\\\\n SAMPLE_BITS = 16\\\\n SAMPLE_TYPE = MSB_INTEGER")
    open(f"{d}/a.lbl", "w").write(f"""PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2880
{ids}
^{name} = ("a.fits", {record})
OBJECT = {name}
 {inner}
END_OBJECT = {name}
END
""")
    return pdr.read(f"{d}/a.lbl")


'''.replace("\\\\n", "\\n")
BUGS = [
 dict(id="lamp-empty-header", property="C36",
  edits=[("pdr/formats/lro.py", """    if 'HEADER' in name:
        return True, hdulist.fileinfo(extname)['hdrLoc']
    if hdulist""", """    if hdulist"""),
   ("pdr/formats/lro.py", """the data object does not actually exist."
        )
    return True, hdulist.fileinfo(extname)['datLoc']""", """the data object does not actually exist."
        )
    if 'HEADER' in name:
        return True, hdulist.fileinfo(extname)['hdrLoc']
    return True, hdulist.fileinfo(extname)['datLoc']""")],
  needs="the header object of a LAMP RDR HDU that has no data",
  what_it_breaks="headers of empty HDUs cannot be read",
  demo=FITS + '''
fitsfile(["", "Acquisition List", "LTS Data"], empty=(1,))
got = labelled("DATA_SET_ID = \\"LRO-L-LAMP-3-RDR-V1.0\\"\\n", "ACQUISITION_LIST_HEADER", 3)
assert got["ACQUISITION_LIST_HEADER"]["TAG"] == 1
got = labelled("DATA_SET_ID = \\"LRO-L-LAMP-3-RDR-V1.0\\"\\n", "LTS_DATA_HEADER", 1)
assert got["LTS_DATA_HEADER"]["TAG"] == 2
'''),
 dict(id="uvs-stim-place", property="C36",
  edits=[("pdr/formats/juno.py", "'PULSE_HEIGHT_DISTRIBUTION_STIM_QUBE': 9",
          "'PULSE_HEIGHT_DISTRIBUTION_STIM_QUBE': 8")],
  needs="the STIM pulse height distribution of a Juno UVS EDR, compared with another's",
  what_it_breaks="another object's data are read in its place",
  demo=FITS + '''
fitsfile([""] * 12)
got = labelled("DATA_SET_ID = \\"JNO-J-UVS-2-EDR-V1.0\\"\\nPRODUCT_TYPE = EDR\\nINSTRUMENT_ID = UVS\\n",
               "PULSE_HEIGHT_DISTRIBUTION_STIM_QUBE", 4)
assert (got["PULSE_HEIGHT_DISTRIBUTION_STIM_QUBE"] == 9).all()
'''),
 dict(id="vmc-last-image", property="C36",
  edits=[("pdr/formats/mex.py", "return hdulist.fileinfo(1)['datLoc']",
          "return hdulist.fileinfo(len(hdulist) - 1)['datLoc']")],
  needs="a VMC RDR file with more than two HDUs",
  what_it_breaks="the image of the last HDU is read, not that of the second",
  demo=FITS + '''
fitsfile(["", "", ""])
got = labelled("DATA_SET_ID = \\"MEX-M-VMC-3-RDR-V1.0\\"\\n", "IMAGE", 2)
assert (got["IMAGE"] == 1).all()
'''),
 dict(id="hriv-mask-place", property="C36",
  edits=[("pdr/formats/epoxi.py", "    return hdulist.fileinfo('MASK')['datLoc']",
          "    return hdulist.fileinfo(1)['datLoc']")],
  needs="a deconvolved HRIV product whose MASK HDU is not the second",
  what_it_breaks="another extension is read as the mask",
  demo=FITS + '''
fitsfile(["", "SNR", "MASK"])
got = labelled("INSTRUMENT_ID = HRIV\\nPRODUCT_TYPE = RADIANCE_DECONVOLVED\\nDATA_SET_ID = \\"X\\"\\n",
               "EXT_MASK_IMAGE", 2)
assert (got["EXT_MASK_IMAGE"] == 2).all()
'''),
]
