CY=T+'structs/crypto.go'; CF=T+'structs/config.go'
v('y_cvver',(CY,'	writeNumeric(buf, cv.Version)\n',''))
v('y_tbsver',(CY,'	writeNumeric(buf, tbs.Version)\n	return writeBytes[uint32]','	writeNumeric(buf, uint16(tbs.Version))\n	return writeBytes[uint32]'))
v('y_vrflab',(CY,'''	if err := writeBytes[uint8](buf, vi.Label, "label"); err != nil {
		return err
	}
	writeNumeric(buf, vi.Version)''','''	buf.Write(vi.Label)
	writeNumeric(buf, vi.Version)'''))
v('y_cfglag',(CF,'''		writeNumeric(buf, pc.MaxAuditorLag)
''',''))
v('y_cfgmode',(CF,'''	writeNumeric(buf, uint8(pc.Mode))
''','''	writeNumeric(buf, uint8(pc.Mode&1))
'''))
v('y_tbsroot',(TH,'''	writeNumeric(buf, tbs.TreeSize)
	buf.Write(tbs.Root)
	return nil
}

type AuditorTreeHead struct''','''	buf.Write(tbs.Root)
	return nil
}

type AuditorTreeHead struct'''))
v('y_lehash',(CY,'	hasher.Write(raw)\n	return hasher.Sum(nil), nil','	hasher.Write(raw[8:])\n	return hasher.Sum(nil), nil'))
