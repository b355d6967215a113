package segment

import (
	"fmt"
	"reflect"

	"github.com/mitch000001/go-hbci/element"
)

// vFieldsInOrder fills the declared fields of the struct x points to and returns them.
func vFieldsInOrder(x interface{}) []element.DataElement {
	s := reflect.ValueOf(x).Elem()
	var r []element.DataElement
	for i := 0; i < s.NumField(); i++ {
		f := s.Type().Field(i)
		if f.Anonymous || f.PkgPath != "" {
			continue
		}
		fv := s.Field(i)
		if fv.Kind() == reflect.Ptr {
			fv.Set(reflect.New(fv.Type().Elem()))
		} else if fv.Kind() == reflect.Interface {
			fv.Set(reflect.ValueOf(element.NewNumber(i, 3)))
		}
		d, ok := fv.Interface().(element.DataElement)
		if !ok {
			panic(f.Name)
		}
		r = append(r, d)
	}
	return r
}

func vOrder(v *vT) {

	v.Rule("every group and segment type with distinct values in all its fields")
	one := func(x interface{}, get func() []element.DataElement) {
		v.Case(fmt.Sprintf("fields of %T", x), func() error {
			want := vFieldsInOrder(x)
			got := get()
			if len(got) != len(want) {
				return fmt.Errorf("%d fields listed, %d declared", len(got), len(want))
			}
			for i := range want {
				if got[i] != want[i] {
					return fmt.Errorf("field %d is %T %p, declared is %T %p", i, got[i], got[i], want[i], want[i])
				}
			}
			return nil
		})
	}
	{
		x := &AccountBalanceRequestSegmentV5{}
		one(x, x.elements)
	}
	{
		x := &AccountBalanceRequestSegmentV6{}
		one(x, x.elements)
	}
	{
		x := &AccountBalanceRequestSegmentV7{}
		one(x, x.elements)
	}
	{
		x := &AccountBalanceRequestSegmentV8{}
		one(x, x.elements)
	}
	{
		x := &AccountBalanceResponseSegmentV5{}
		one(x, x.elements)
	}
	{
		x := &AccountBalanceResponseSegmentV6{}
		one(x, x.elements)
	}
	{
		x := &AccountBalanceResponseSegmentV7{}
		one(x, x.elements)
	}
	{
		x := &AccountBalanceResponseSegmentV8{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationRequestSegmentV1{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationRequestSegmentV2{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationRequestSegmentV3{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationRequestSegmentV4{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationRequestSegmentV5{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationRequestSegmentV6{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationResponseSegment{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationV4{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationV5{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationV6{}
		one(x, x.elements)
	}
	{
		x := &AccountInformationV7{}
		one(x, x.elements)
	}
	{
		x := &AccountTransactionRequestV5{}
		one(x, x.elements)
	}
	{
		x := &AccountTransactionRequestV6{}
		one(x, x.elements)
	}
	{
		x := &AccountTransactionRequestV7{}
		one(x, x.elements)
	}
	{
		x := &AccountTransactionResponseSegmentV5{}
		one(x, x.elements)
	}
	{
		x := &AccountTransactionResponseSegmentV6{}
		one(x, x.elements)
	}
	{
		x := &AccountTransactionResponseSegmentV7{}
		one(x, x.elements)
	}
	{
		x := &BankAnnouncementSegment{}
		one(x, x.elements)
	}
	{
		x := &CommonBankParameterV2{}
		one(x, x.elements)
	}
	{
		x := &CommonBankParameterV3{}
		one(x, x.elements)
	}
	{
		x := &CommonUserParameterDataV2{}
		one(x, x.elements)
	}
	{
		x := &CommonUserParameterDataV3{}
		one(x, x.elements)
	}
	{
		x := &CommonUserParameterDataV4{}
		one(x, x.elements)
	}
	{
		x := &CommunicationAccessRequestSegment{}
		one(x, x.elements)
	}
	{
		x := &CommunicationAccessResponseSegment{}
		one(x, x.elements)
	}
	{
		x := &CompressionMethodSegment{}
		one(x, x.elements)
	}
	{
		x := &DialogEndSegment{}
		one(x, x.elements)
	}
	{
		x := &EncryptedDataSegment{}
		one(x, x.elements)
	}
	{
		x := &EncryptionHeaderSegmentV3{}
		one(x, x.elements)
	}
	{
		x := &EncryptionHeaderV2{}
		one(x, x.elements)
	}
	{
		x := &IdentificationSegment{}
		one(x, x.elements)
	}
	{
		x := &MessageEndSegment{}
		one(x, x.elements)
	}
	{
		x := &MessageHeaderSegment{}
		one(x, x.elements)
	}
	{
		x := &PinTanBankParameterV1{}
		one(x, x.elements)
	}
	{
		x := &ProcessingPreparationSegmentV2{}
		one(x, x.elements)
	}
	{
		x := &ProcessingPreparationSegmentV3{}
		one(x, x.elements)
	}
	{
		x := &PublicKeyRenewalSegment{}
		one(x, x.elements)
	}
	{
		x := &PublicKeyRequestSegment{}
		one(x, x.elements)
	}
	{
		x := &PublicKeyRevocationConfirmationSegment{}
		one(x, x.elements)
	}
	{
		x := &PublicKeyRevocationSegment{}
		one(x, x.elements)
	}
	{
		x := &PublicKeyTransmissionSegment{}
		one(x, x.elements)
	}
	{
		x := &SecurityMethodSegment{}
		one(x, x.elements)
	}
	{
		x := &SignatureEndV1{}
		one(x, x.elements)
	}
	{
		x := &SignatureEndV2{}
		one(x, x.elements)
	}
	{
		x := &SignatureHeaderSegmentV4{}
		one(x, x.elements)
	}
	{
		x := &SignatureHeaderV3{}
		one(x, x.elements)
	}
	{
		x := &StatusProtocolRequestSegmentV3{}
		one(x, x.elements)
	}
	{
		x := &StatusProtocolRequestSegmentV4{}
		one(x, x.elements)
	}
	{
		x := &StatusProtocolResponseSegmentV3{}
		one(x, x.elements)
	}
	{
		x := &StatusProtocolResponseSegmentV4{}
		one(x, x.elements)
	}
	{
		x := &SynchronisationRequestV2{}
		one(x, x.elements)
	}
	{
		x := &SynchronisationRequestV3{}
		one(x, x.elements)
	}
	{
		x := &SynchronisationResponseSegmentV3{}
		one(x, x.elements)
	}
	{
		x := &SynchronisationResponseSegmentV4{}
		one(x, x.elements)
	}
	{
		x := &TanBankParameterV6{}
		one(x, x.elements)
	}
	{
		x := &TanRequestSegmentV1{}
		one(x, x.elements)
	}
	{
		x := &TanRequestSegmentV6{}
		one(x, x.elements)
	}
}
