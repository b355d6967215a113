package segment

import (
	"time"

	"github.com/mitch000001/go-hbci/domain"
)

// one request for an institute that advertises the supported segments

func gocvAccountBalance(supported []VersionedSegment, account domain.AccountConnection, all bool) (string, int, error) {
	r, err := NewBuilder(supported).AccountBalanceRequest(account, all)
	if err != nil {
		return "", 0, err
	}
	return r.Header().ID.Val(), r.Header().Version.Val(), nil
}

func gocvSepaAccountBalance(supported []VersionedSegment, account domain.InternationalAccountConnection, all bool) (string, int, error) {
	r, err := NewBuilder(supported).SepaAccountBalanceRequest(account, all)
	if err != nil {
		return "", 0, err
	}
	return r.Header().ID.Val(), r.Header().Version.Val(), nil
}

func gocvAccountTransactions(supported []VersionedSegment, account domain.AccountConnection, all bool) (string, int, error) {
	r, err := NewBuilder(supported).AccountTransactionRequest(account, all)
	if err != nil {
		return "", 0, err
	}
	return r.Header().ID.Val(), r.Header().Version.Val(), nil
}

func gocvSepaAccountTransactions(supported []VersionedSegment, account domain.InternationalAccountConnection, all bool) (string, int, error) {
	r, err := NewBuilder(supported).SepaAccountTransactionRequest(account, all)
	if err != nil {
		return "", 0, err
	}
	return r.Header().ID.Val(), r.Header().Version.Val(), nil
}

func gocvStatusProtocol(supported []VersionedSegment, from, to time.Time, maxEntries int, reference string) (string, int, error) {
	r, err := NewBuilder(supported).StatusProtocolRequest(from, to, maxEntries, reference)
	if err != nil {
		return "", 0, err
	}
	return r.Header().ID.Val(), r.Header().Version.Val(), nil
}
