package serializers

// vhPayload encodes a payload and decodes what came out with the same serializer.
func vhPayload(id uint64, args []any, kwargs map[string]any) (encErr error, args2 []any, kwargs2 map[string]any, decErr error) {
	b, encErr := SerializePayload(id, args, kwargs)
	if encErr != nil {
		return encErr, nil, nil, nil
	}
	args2, kwargs2, decErr = DeserializePayload(id, b)
	return nil, args2, kwargs2, decErr
}

// vhCBOR encodes a payload and decodes it with the older pair of functions.
func vhCBOR(args []any, kwargs map[string]any) (encErr error, args2 []any, kwargs2 map[string]any, decErr error) {
	b, encErr := EncodeCBOR(args, kwargs)
	if encErr != nil {
		return encErr, nil, nil, nil
	}
	args2, kwargs2, decErr = DecodeCBOR(b)
	return nil, args2, kwargs2, decErr
}
