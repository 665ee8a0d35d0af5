C="verifiable/common.go"
M("n1-p384-es256","C24",[(C,"		return cose.AlgorithmES384, nil","		return cose.AlgorithmES256, nil")])
M("n2-k1der","C24",[(C,"case kmsapi.ECDSASecp256k1TypeIEEEP1363, kmsapi.ECDSASecp256k1DER:","case kmsapi.ECDSASecp256k1TypeIEEEP1363:")])
M("n3-rsa-default","C24",[(C,"	case kmsapi.RSAPS256Type:\n		return PS256, nil","	case kmsapi.RSAPS256Type:\n		return RS256, nil")])
M("n4-sdalg-upper","C10",[("sdjwt/common/common.go","return strings.ToLower(sdAlg.String()), nil","return sdAlg.String(), nil")])
M("n5-sdalg-dropped","C10",[("verifiable/credential.go","		vcJSON[jsonFldSDJWTHashAlg] = sdHashAlg","		if len(vcc.Subject) > 0 {\n			vcJSON[jsonFldSDJWTHashAlg] = sdHashAlg\n		}")])
M("n6-did-external","C02",[("verifiable/did_ldp.go","		opts.externalContext = context","		opts.externalContext = context[1:]")])
M("n7-dataurl-last","C10",[(C,'strings.Index(url, ",")','strings.LastIndex(url, ",")')])
M("n8-sd-detached","C06",[("sdjwt/issuer/issuer.go","	signedJWT, err := j.SignedJWT.Serialize(detached)","	signedJWT, err := j.SignedJWT.Serialize(false)")])
M("n9-sd-element-index","C15",[("presexch/definition.go","		if hidden && dc == nil {\n			continue\n		}","		if hidden && dc == nil {\n			index--\n			continue\n		}")])
M("n10-first-format","C16,C15",[("presexch/definition.go",'		if firstFormat == "" && len(matched) > 0 {','		if len(matched) > 0 {')])
M("n11-bbs-padding","C22,C23",[("crypto-ext/verifiers/bbs/verifier.go",'''		if i >= count {
			return errors.New("signature proof reveals unknown message")
		}
''','''		if i >= count {
			continue
		}
''')])
M("n12-type-in-context","C15,C16",[("presexch/definition.go","presentable = presentable || constraints == nil || canLimitDisclosure(constraints, candidate.credential)","presentable = presentable || canLimitDisclosure(constraints, candidate.credential)")])
