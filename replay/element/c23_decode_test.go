package element

import (
	"fmt"
	"testing"
)

func TestVerifC23(t *testing.T) {
	v := vStart(t)
	v.Rule("the zero value of every field and group type with a decoder of its own, decoded from strings up to length 5 over ? + : ' @ 1 A, from lists of up to 12 well-formed and malformed contents joined by : or +, and from alterations of those")
	types := map[string]func() DataElement{
		"Acknowledgement": func() DataElement { return &AcknowledgementDataElement{} }, "Params": func() DataElement { return &ParamsDataElement{} },
		"SecurityMethod": func() DataElement { return &SupportedSecurityMethodDataElement{} }, "SecurityMethodVersions": func() DataElement { return &SecurityMethodVersionsDataElement{} },
		"HBCIVersions": func() DataElement { return &SupportedHBCIVersionsDataElement{} }, "Languages": func() DataElement { return &SupportedLanguagesDataElement{} },
		"Compression": func() DataElement { return &SupportedCompressionMethodsDataElement{} }, "PinTanBTPs": func() DataElement { return &PinTanBusinessTransactionParameters{} },
		"PinTanBTP": func() DataElement { return &PinTanBusinessTransactionParameter{} }, "CommParam": func() DataElement { return &CommunicationParameterDataElement{} },
		"AlphaNumeric": func() DataElement { return &AlphaNumericDataElement{} }, "Text": func() DataElement { return &TextDataElement{} },
		"Digit": func() DataElement { return &DigitDataElement{} }, "Number": func() DataElement { return &NumberDataElement{} },
		"Float": func() DataElement { return &FloatDataElement{} }, "Binary": func() DataElement { return &BinaryDataElement{} },
		"Boolean": func() DataElement { return &BooleanDataElement{} }, "Code": func() DataElement { return &CodeDataElement{} },
		"Date": func() DataElement { return &DateDataElement{} }, "VirtualDate": func() DataElement { return &VirtualDateDataElement{} }, "Time": func() DataElement { return &TimeDataElement{} },
		"Identification": func() DataElement { return &IdentificationDataElement{} }, "Country": func() DataElement { return &CountryCodeDataElement{} },
		"Currency": func() DataElement { return &CurrencyDataElement{} }, "Value": func() DataElement { return &ValueDataElement{} },
		"Amount": func() DataElement { return &AmountDataElement{} }, "BankID": func() DataElement { return &BankIdentificationDataElement{} },
		"Account": func() DataElement { return &AccountConnectionDataElement{} }, "InternationalAccount": func() DataElement { return &InternationalAccountConnectionDataElement{} },
		"Balance": func() DataElement { return &BalanceDataElement{} }, "Ref": func() DataElement { return &ReferencingMessageDataElement{} },
		"CustomSignature": func() DataElement { return &CustomSignatureDataElement{} }, "PinTan": func() DataElement { return &PinTanDataElement{} },
		"PinTanParams": func() DataElement { return &PinTanSpecificParamDataElement{} }, "Header": func() DataElement { return &SegmentHeader{} },
		"SecurityID": func() DataElement { return &SecurityIdentificationDataElement{} }, "SecurityDate": func() DataElement { return &SecurityDateDataElement{} },
		"Hash": func() DataElement { return &HashAlgorithmDataElement{} }, "SigAlg": func() DataElement { return &SignatureAlgorithmDataElement{} },
		"EncAlg": func() DataElement { return &EncryptionAlgorithmDataElement{} }, "KeyName": func() DataElement { return &KeyNameDataElement{} },
		"Certificate": func() DataElement { return &CertificateDataElement{} }, "SecurityProfile": func() DataElement { return &SecurityProfileDataElement{} },
		"MT940": func() DataElement { return &SwiftMT940DataElement{} }, "Tan2StepParams": func() DataElement { return &Tan2StepSubmissionParameterV6{} },
		"Tan2StepProcesses": func() DataElement { return &Tan2StepSubmissionProcessParametersV6{} }, "Tan2StepProcess": func() DataElement { return &Tan2StepSubmissionProcessParameterV6{} },
		"AccountLimit": func() DataElement { return &AccountLimitDataElement{} }, "Allowed": func() DataElement { return &AllowedBusinessTransactionsDataElement{} },
		"Persons": func() DataElement { return &DisposalEligiblePersonsDataElement{} },
		"AllowedOne": func() DataElement { return &AllowedBusinessTransactionDataElement{} },
	}
	var names []string
	for k := range types {
		names = append(names, k)
	}
	pool := []string{"", "", "J", "N", "1", "0", "007", "300", "-1", "99999999999999999999", "12345678", "123,45", "0,", ",", "C", "D", "EUR", "20140101", "20140231", "101010", "10:20", "text", "\xfc\xe4\xff", "?'", "?+?:", "?", "?A", "280:1", "0010::ok.", "@0@", "@3@abc", "@3@'+:", "@5@12", "@", "@x@y", "@-1@", "@99999999999999999999@", "'", "+", "HKSAL", "\x00"}
	one := func(n, b string) {
		v.Case(fmt.Sprintf("%s %q", n, b), func() error { types[n]().UnmarshalHBCI([]byte(b)); return nil })
	}
	v.Strings("?+:'@1A", v.N(4, 5), func(s string) {
		for _, n := range names {
			one(n, s)
		}
	})
	for _, n := range names {
		for _, p := range pool {
			one(n, p)
		}
	}
	for i := 0; i < v.N(6000, 300000); i++ {
		b := ""
		for k := v.R.Intn(12); k >= 0; k-- {
			b += pool[v.R.Intn(len(pool))]
			if k > 0 {
				b += []string{":", ":", ":", "+"}[v.R.Intn(4)]
			}
		}
		n := names[v.R.Intn(len(names))]
		for _, n := range []string{n, names[v.R.Intn(len(names))], names[v.R.Intn(len(names))]} {
			one(n, b)
			if len(b) > 0 {
				p := v.R.Intn(len(b))
				one(n, b[:p])
				one(n, b[:p]+v.Rand([]string{"'", "+", ":", "?", "@", "@9@", "x"}, 2)+b[p+1:])
			}
		}
		one("Tan2StepParams", "1:1:1:J:N:"+b)
		one("PinTanParams", "5:6:6:User:Customer:"+b)
	}
	v.End(t)
}
