// Generated by scripts/gen_messages.py. Do not edit.
package messages

// vhWire stands for what a decoder makes of an encoded list.
func vhWire(l []any) []any { return l }

func vhHello(realm string, authID string, authExtra map[string]any, roles map[string]any, authMethods []string) (l []any, m *Hello, err error) {
	l = vhWire(NewHello(realm, authID, authExtra, roles, authMethods).Marshal())
	m = &Hello{}
	err = m.Parse(l)
	return l, m, err
}

func vhWelcome(sessionID uint64, details map[string]any) (l []any, m *Welcome, err error) {
	l = vhWire(NewWelcome(sessionID, details).Marshal())
	m = &Welcome{}
	err = m.Parse(l)
	return l, m, err
}

func vhAbort(details map[string]any, reason string, args []any, kwArgs map[string]any) (l []any, m *Abort, err error) {
	l = vhWire(NewAbort(details, reason, args, kwArgs).Marshal())
	m = &Abort{}
	err = m.Parse(l)
	return l, m, err
}

func vhChallenge(authMethod string, extra map[string]any) (l []any, m *Challenge, err error) {
	l = vhWire(NewChallenge(authMethod, extra).Marshal())
	m = &Challenge{}
	err = m.Parse(l)
	return l, m, err
}

func vhAuthenticate(signature string, extra map[string]any) (l []any, m *Authenticate, err error) {
	l = vhWire(NewAuthenticate(signature, extra).Marshal())
	m = &Authenticate{}
	err = m.Parse(l)
	return l, m, err
}

func vhGoodBye(reason string, details map[string]any) (l []any, m *GoodBye, err error) {
	l = vhWire(NewGoodBye(reason, details).Marshal())
	m = &GoodBye{}
	err = m.Parse(l)
	return l, m, err
}

func vhError(messageType uint64, requestID uint64, details map[string]any, uRI string, args []any, kwArgs map[string]any) (l []any, m *Error, err error) {
	l = vhWire(NewError(messageType, requestID, details, uRI, args, kwArgs).Marshal())
	m = &Error{}
	err = m.Parse(l)
	return l, m, err
}

func vhPublish(requestID uint64, options map[string]any, topic string, args []any, kwArgs map[string]any) (l []any, m *Publish, err error) {
	l = vhWire(NewPublish(requestID, options, topic, args, kwArgs).Marshal())
	m = &Publish{}
	err = m.Parse(l)
	return l, m, err
}

func vhPublished(requestID uint64, publicationID uint64) (l []any, m *Published, err error) {
	l = vhWire(NewPublished(requestID, publicationID).Marshal())
	m = &Published{}
	err = m.Parse(l)
	return l, m, err
}

func vhSubscribe(requestID uint64, options map[string]any, topic string) (l []any, m *Subscribe, err error) {
	l = vhWire(NewSubscribe(requestID, options, topic).Marshal())
	m = &Subscribe{}
	err = m.Parse(l)
	return l, m, err
}

func vhSubscribed(requestID uint64, subscriptionID uint64) (l []any, m *Subscribed, err error) {
	l = vhWire(NewSubscribed(requestID, subscriptionID).Marshal())
	m = &Subscribed{}
	err = m.Parse(l)
	return l, m, err
}

func vhUnsubscribe(requestID uint64, subscriptionID uint64) (l []any, m *Unsubscribe, err error) {
	l = vhWire(NewUnsubscribe(requestID, subscriptionID).Marshal())
	m = &Unsubscribe{}
	err = m.Parse(l)
	return l, m, err
}

func vhUnsubscribed(requestID uint64) (l []any, m *Unsubscribed, err error) {
	l = vhWire(NewUnsubscribed(requestID).Marshal())
	m = &Unsubscribed{}
	err = m.Parse(l)
	return l, m, err
}

func vhEvent(subscriptionID uint64, publicationID uint64, details map[string]any, args []any, kwArgs map[string]any) (l []any, m *Event, err error) {
	l = vhWire(NewEvent(subscriptionID, publicationID, details, args, kwArgs).Marshal())
	m = &Event{}
	err = m.Parse(l)
	return l, m, err
}

func vhCall(requestID uint64, options map[string]any, procedure string, args []any, kwArgs map[string]any) (l []any, m *Call, err error) {
	l = vhWire(NewCall(requestID, options, procedure, args, kwArgs).Marshal())
	m = &Call{}
	err = m.Parse(l)
	return l, m, err
}

func vhCancel(requestID uint64, options map[string]any) (l []any, m *Cancel, err error) {
	l = vhWire(NewCancel(requestID, options).Marshal())
	m = &Cancel{}
	err = m.Parse(l)
	return l, m, err
}

func vhResult(requestID uint64, details map[string]any, args []any, kwArgs map[string]any) (l []any, m *Result, err error) {
	l = vhWire(NewResult(requestID, details, args, kwArgs).Marshal())
	m = &Result{}
	err = m.Parse(l)
	return l, m, err
}

func vhRegister(requestID uint64, options map[string]any, procedure string) (l []any, m *Register, err error) {
	l = vhWire(NewRegister(requestID, options, procedure).Marshal())
	m = &Register{}
	err = m.Parse(l)
	return l, m, err
}

func vhRegistered(requestID uint64, registrationID uint64) (l []any, m *Registered, err error) {
	l = vhWire(NewRegistered(requestID, registrationID).Marshal())
	m = &Registered{}
	err = m.Parse(l)
	return l, m, err
}

func vhUnregister(requestID uint64, registrationID uint64) (l []any, m *Unregister, err error) {
	l = vhWire(NewUnregister(requestID, registrationID).Marshal())
	m = &Unregister{}
	err = m.Parse(l)
	return l, m, err
}

func vhUnregistered(requestID uint64) (l []any, m *Unregistered, err error) {
	l = vhWire(NewUnregistered(requestID).Marshal())
	m = &Unregistered{}
	err = m.Parse(l)
	return l, m, err
}

func vhInvocation(requestID uint64, registrationID uint64, details map[string]any, args []any, kwArgs map[string]any) (l []any, m *Invocation, err error) {
	l = vhWire(NewInvocation(requestID, registrationID, details, args, kwArgs).Marshal())
	m = &Invocation{}
	err = m.Parse(l)
	return l, m, err
}

func vhInterrupt(requestID uint64, options map[string]any) (l []any, m *Interrupt, err error) {
	l = vhWire(NewInterrupt(requestID, options).Marshal())
	m = &Interrupt{}
	err = m.Parse(l)
	return l, m, err
}

func vhYield(requestID uint64, options map[string]any, args []any, kwArgs map[string]any) (l []any, m *Yield, err error) {
	l = vhWire(NewYield(requestID, options, args, kwArgs).Marshal())
	m = &Yield{}
	err = m.Parse(l)
	return l, m, err
}
