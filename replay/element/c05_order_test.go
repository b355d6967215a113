package element

import (
	"fmt"
	"reflect"
)

// vFieldsInOrder fills the declared fields of the struct x points to and returns them.
func vFieldsInOrder(x interface{}) []DataElement {
	s := reflect.ValueOf(x).Elem()
	var r []DataElement
	for i := 0; i < s.NumField(); i++ {
		f := s.Type().Field(i)
		if f.Anonymous || f.PkgPath != "" {
			continue
		}
		fv := s.Field(i)
		if fv.Kind() == reflect.Ptr {
			fv.Set(reflect.New(fv.Type().Elem()))
		} else if fv.Kind() == reflect.Interface {
			fv.Set(reflect.ValueOf(NewNumber(i, 3)))
		}
		d, ok := fv.Interface().(DataElement)
		if !ok {
			panic(f.Name)
		}
		r = append(r, d)
	}
	return r
}

func vOrder(v *vT) {

	v.Rule("every group and segment type with distinct values in all its fields")
	one := func(x interface{}, get func() []DataElement) {
		v.Case(fmt.Sprintf("fields of %T", x), func() error {
			want := vFieldsInOrder(x)
			got := get()
			if len(got) != len(want) {
				return fmt.Errorf("%d fields listed, %d declared", len(got), len(want))
			}
			for i := range want {
				if got[i] != want[i] {
					return fmt.Errorf("field %d is %T %p, declared is %T %p", i, got[i], got[i], want[i], want[i])
				}
			}
			return nil
		})
	}
	{
		x := &AccountConnectionDataElement{}
		one(x, x.Elements)
	}
	{
		x := &AddressDataElement{}
		one(x, x.Elements)
	}
	{
		x := &AmountDataElement{}
		one(x, x.Elements)
	}
	{
		x := &BalanceDataElement{}
		one(x, x.Elements)
	}
	{
		x := &BankIdentificationDataElement{}
		one(x, x.Elements)
	}
	{
		x := &InternationalAccountConnectionDataElement{}
		one(x, x.Elements)
	}
	{
		x := &PinTanBusinessTransactionParameter{}
		one(x, x.Elements)
	}
	{
		x := &PinTanSpecificParamDataElement{}
		one(x, x.Elements)
	}
	{
		x := &Tan2StepSubmissionParameterV6{}
		one(x, x.Elements)
	}
	{
		x := &Tan2StepSubmissionProcessParameterV6{}
		one(x, x.Elements)
	}
	{
		x := &AccountLimitDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &AllowedBusinessTransactionDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &CertificateDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &CommunicationParameterDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &EncryptionAlgorithmDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &HashAlgorithmDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &KeyNameDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &PinTanDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &PublicKeyDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &ReferencingMessageDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &SecurityDateDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &SecurityIdentificationDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &SecurityProfileDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &SegmentHeader{}
		one(x, x.GroupDataElements)
	}
	{
		x := &SignatureAlgorithmDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &SupportedSecurityMethodDataElement{}
		one(x, x.GroupDataElements)
	}
	{
		x := &TanChallengeExpiryDate{}
		one(x, x.GroupDataElements)
	}
}
