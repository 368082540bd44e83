AttributeValue = object
